#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from newseed import seed
CE = "pkg/kmeans/centroid/centroid.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"
S = "pkg/kmeans/rpc/server.go"
R = "pkg/kmeans/rpc/rpc.go"
DI = "pkg/mathutils/distance.go"
KN = "pkg/searchutils/knn.go"
EL = "core/eventloop/eltask.go"
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s2.py")).read()
LOCAL = src.split('LOCAL = """')[1].split('"""')[0]
NET = src.split('NET = """')[1].split('"""')[0]

seed("size-checked-exactly", "P31", [(CM, "	if centroid.LenDP() >= cm.centroidDPThreshold {", "	if centroid.LenDP() == cm.centroidDPThreshold {")],
LOCAL + """func TestDemo(t *testing.T) {
	cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: []float64{0, 0}, CentroidDPThreshold: 10, KNNSearchFunc: searchutils.KNNEuc, KFNSearchFunc: searchutils.KFNEuc,
	})
	c := newC(dp(1, 1))
	for i := 0; i < 11; i++ {
		c.AddDataPoint(dp(1, float64(i)))
	}
	cm.Centroids = append(cm.Centroids, c)
	cm.MoveVector()
	if !cm.AddDataPoint(dp(1, 1)) || len(cm.Centroids) != 2 {
		t.Fatalf("an overgrown centroid was not split: %v centroids", len(cm.Centroids))
	}
}
""", "a centroid that outgrows the configured threshold by other means than adding to it one by one (merging, stealing)",
"the configured size limit has no effect on a centroid that is beyond it already")

seed("furthest-by-distance", "P31", [("cfg/cfg.go", "var KFN_SEARCH_FUNC = searchutils.KFNCos", "var KFN_SEARCH_FUNC = searchutils.KFNEuc")],
"""package zzdemo

import (
	"testing"
	"trypo/cfg"
)

func pool(vs [][]float64) func() ([]float64, bool) {
	i := 0
	return func() ([]float64, bool) {
		if i >= len(vs) {
			return nil, false
		}
		i++
		return vs[i-1], true
	}
}

func TestDemo(t *testing.T) {
	vs := [][]float64{{10, 10}, {1, -1}, {1, 2}}
	near := cfg.KNN_SEARCH_FUNC([]float64{1, 1}, pool(vs), 1)
	far := cfg.KFN_SEARCH_FUNC([]float64{1, 1}, pool(vs), 1)
	if near[0] == far[0] {
		t.Fatalf("%v is both the nearest and the furthest", near[0])
	}
}
""", "datapoints of the same direction but of very different lengths", "what is furthest from a centroid is told by another measure than what is nearest")

seed("accept-again", "P32", [(R, """			if err != nil {
				break
			}""", """			if err != nil {
				// One failed connection is no reason to end the service.
				if ne, ok := err.(net.Error); ok && !ne.Timeout() {
					continue
				}
				break
			}""")], NET.replace('import (', 'import (\n\t"runtime"\n\t"strings"') + """func TestDemo(t *testing.T) {
	s := rpc.NewKMeansServer("localhost:3955", nil)
	stop, err := rpc.StartListen(s)
	if err != nil {
		t.Skip(err)
	}
	stop()
	for i := 0; i < 40; i++ {
		time.Sleep(50 * time.Millisecond)
		b := make([]byte, 1<<20)
		if !strings.Contains(string(b[:runtime.Stack(b, true)]), "StartListen") {
			return
		}
	}
	t.Fatal("still accepting after stop")
}
""", "stopping a node", "the accepting goroutine goes on for ever after the node was stopped")

seed("len-outside-lock", "P03", [(S, """	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		*resp = cm.LenDP()
	})""", """	var m *CentroidManager
	err := s.handleNamespaceErr(namespace, func(cm *CentroidManager) { m = cm })
	if err == nil {
		// Just reading, others need not wait for it.
		*resp = m.LenDP()
	}
	return err""")], NET.replace('import (', 'import (\n\t"sync"') + """func TestDemo(t *testing.T) {
	s := rpc.NewKMeansServer("localhost:3956", func(vec []float64) *centroidmanager.CentroidManager {
		cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: 1000, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		return &cm
	})
	var ok bool
	s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns", DP: DP{Vec: []float64{1, 2}}}, &ok)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			var ok bool
			s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns", DP: DP{Vec: []float64{1, 2}}}, &ok)
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 2000; i++ {
			var n int
			s.LenDP("ns", &n)
		}
	}()
	wg.Wait()
}
""", "a request for the amount of datapoints while another one adds some", "stored data is counted without holding the lock of the namespace", race=True)

seed("slot-check-then-lock", "P04", [(R, """	t.Lock()
	defer t.Unlock()
	// Replacing""", """	// Replacing"""), (R, """	t.slots[namespace] = cms
	return true""", """	t.Lock()
	defer t.Unlock()
	t.slots[namespace] = cms
	return true""")], NET.replace('import (', 'import (\n\t"sync"\n\t"sync/atomic"\n\t"fmt"') + """func TestDemo(t *testing.T) {
	s := rpc.NewKMeansServer("localhost:3957", func(vec []float64) *centroidmanager.CentroidManager {
		cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: 1000, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		return &cm
	})
	for i := 0; i < 200; i++ {
		ns := fmt.Sprint(i)
		var n int32
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var ok bool
				s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: DP{Vec: []float64{1, 2}}}, &ok)
				if ok {
					atomic.AddInt32(&n, 1)
				}
			}()
		}
		wg.Wait()
		var have int
		s.LenDP(ns, &have)
		if have != int(n) {
			t.Fatalf("%v acknowledged, %v stored", n, have)
		}
	}
}
""", "two first writes to a namespace at the same time", "the second one replaces the namespace that the first one was stored in", race=True)

seed("balance-two-nodes", "P23", [(EL, "otherLen-transferDPN < dpMean+margin && len(addrs) != 1 {", "otherLen-transferDPN < dpMean+margin && len(addrs) > 2 {")],
"""package zzdemo

import (
	"testing"
	"time"
	"trypo/core/eventloop"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

type logger struct{}

func (l *logger) LogTask(string)             {}
func (l *logger) LogMeta(eventloop.MetaData) {}

func node(t *testing.T, addr string, n int) *rpc.KMeansServer {
	s := rpc.NewKMeansServer(addr, func(vec []float64) *centroidmanager.CentroidManager {
		cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: 10, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		return &cm
	})
	stop, err := rpc.StartListen(s)
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(stop)
	for i := 0; i < n; i++ {
		var ok bool
		s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns", DP: common.DataPoint{Vec: []float64{1, float64(i)}}}, &ok)
	}
	return s
}

func TestDemo(t *testing.T) {
	a := node(t, "localhost:3952", 55)
	node(t, "localhost:3954", 130)
	local, other := eventloop.Addr{"localhost", "3952"}, eventloop.Addr{"localhost", "3954"}
	off := 1001
	halt := eventloop.EventLoop(&eventloop.EventLoopConfig{
		LocalAddr: local, RemoteAddrs: []eventloop.Addr{local, other}, TimeoutLoop: time.Millisecond, TimeoutStep: time.Millisecond, L: &logger{},
		TaskSkip: eventloop.EventLoopTaskSkipConfig{
			LoadBalancing: 1, SplitCentroids: off, MergeCentroids: off, MemTrim: off, Expire: off, Meta: off,
			DistributeDataPointsFast: off, DistributeDataPointsAccurate: off, DistributeDataPointsInternal: off,
		},
	})
	time.Sleep(time.Second)
	halt()
	time.Sleep(100 * time.Millisecond)
	// The average is 92, so that the other would be left below 1.4 times that.
	var n int
	a.LenDP("ns", &n)
	if n != 55 {
		t.Fatalf("the local node has %v datapoints instead of 55", n)
	}
}
""", "a network of exactly two nodes of which the other has little more than the average", "the other node is drained below the margin above the average")

seed("zero-norm-either", "P25", [(DI, "	if norm1 == 0 || norm2 == 0 {", "	if norm1+norm2 == 0 {")],
LOCAL + """func TestDemo(t *testing.T) {
	s, err := mathutils.CosineSimilarity([]float64{0, 0}, []float64{1, 1})
	if err != nil || s != 0 {
		t.Fatal(s, err)
	}
}
""", "a zero vector that is compared with another one", "the similarity is not a number, so that the candidate is never found")

seed("drain-clamped-early", "P14", [(CE, "	for len(c.DataPoints) != 0 && len(res) < n {", "	if n > len(c.DataPoints) {\n		n = len(c.DataPoints)\n	}\n	for len(res) < n {")],
LOCAL + """func TestDemo(t *testing.T) {
	c := newC(dp(1, 1))
	c.DataPoints = []DP{dp(1, 1), expired(2, 2), dp(4, 4)}
	if n := len(c.DrainUnordered(10)); n != 2 {
		t.Fatal(n)
	}
}
""", "draining more than there is from a centroid that holds an expired datapoint", "the node crashes with an index out of range")

seed("namespace-folded", "P06", [(R, '''	"net/rpc"
	"sync"
''', '''	"net/rpc"
	"strings"
	"sync"
'''), (R, "	slot, ok := t.slots[namespace]\n", "	slot, ok := t.slots[strings.ToLower(namespace)]\n"),
(R, """	if cms == nil || cms.cManager == nil {
		return false
	}
""", """	namespace = strings.ToLower(namespace)
	if cms == nil || cms.cManager == nil {
		return false
	}
""")], NET + """func TestDemo(t *testing.T) {
	s := node(t, "localhost:3951")
	var ok bool
	s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "users", DP: DP{Vec: []float64{1, 2}}}, &ok)
	s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "Users", DP: DP{Vec: []float64{1, 2}}}, &ok)
	var n int
	if err := s.LenDP("users", &n); err != nil || n != 1 {
		t.Fatal(n, err)
	}
}
""", "two namespaces whose names differ in case only", "data of one namespace is stored in and served from another one")

seed("drain-nearest-first", "P09", [(CE, """(c.DataPoints index shift).
		sort.Ints(indexes)
		for i := len(indexes) - 1; i > -1; i-- {
			c.rmDataPoint(indexes[i])
		}
	}
	return res""", """(c.DataPoints index shift).
		for i := len(indexes) - 1; i > -1; i-- {
			c.rmDataPoint(indexes[i])
		}
	}
	return res""")],
LOCAL + """func TestDemo(t *testing.T) {
	c := newC(dp(1, 9), dp(1, 8), dp(1, 2), dp(1, 1))
	got := c.KNNLookup([]float64{1, 1}, 2, true) // Positions 3, 2.
	for _, g := range got {
		for _, d := range c.DataPoints {
			if near(g.Vec, d.Vec) {
				t.Fatalf("%v was returned and is still stored", g.Vec)
			}
		}
	}
}
""", "a draining lookup whose results are not found in the order they are stored in", "another datapoint than the one returned is removed (or the node crashes)")

seed("positions-skip-bad", "P18", [(KN, """		if err != nil {
			i++
			continue
		}""", """		if err != nil {
			continue
		}""")], LOCAL + """func TestDemo(t *testing.T) {
	pool := [][]float64{{1, 1, 1}, {5, 5}, {1, 1}}
	i := 0
	got := searchutils.KNNEuc([]float64{1, 1}, func() ([]float64, bool) {
		if i >= len(pool) {
			return nil, false
		}
		i++
		return pool[i-1], true
	}, 1)
	if len(got) != 1 || got[0] != 2 {
		t.Fatalf("nearest: %v", got)
	}
}
""", "a candidate of another dimension before the nearest one", "the positions returned refer to other candidates")
