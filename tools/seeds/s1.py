import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from newseed import seed
A = "pkg/arbiter/arbiter.go"
seed("uniform-last-wins", "P26", [(A, """	for _, status := range *s {
		if status != sc {
			return false
		}
	}
	return true""", """	uniform := true
	for _, status := range *s {
		uniform = status == sc
	}
	return uniform""")], """package zzdemo

import (
	"testing"
	"trypo/pkg/arbiter"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 500; i++ {
		s := arbiter.ArbStats{}
		for j := 0; j < 5; j++ {
			s[arbiter.Addr{"h", string(rune('a' + j))}] = 1
		}
		s[arbiter.Addr{"h", "x"}] = 2
		if s.UniformStatus(1) {
			t.Fatal("a differing status went unnoticed")
		}
	}
}
""", "statuses of which one differs, and an iteration order that does not visit it last", "UniformStatus reports the status that was visited last")

R = "pkg/kmeans/rpc/rpc.go"
seed("meta-nested-locks", "P05", [(S, """		namespaces = append(namespaces, key)
	}
	s.Table.Unlock()

	centroids := make(map[string]int, len(namespaces))
	dps := make(map[string]int, len(namespaces))

	for _, ns := range namespaces {
		s.Table.Access(ns, func(cm *CentroidManager) {
			centroids[ns] = len(cm.Centroids)
			dps[ns] = cm.LenDP()
		})
	}
""", """		namespaces = append(namespaces, key)
	}

	centroids := make(map[string]int, len(namespaces))
	dps := make(map[string]int, len(namespaces))

	for _, ns := range namespaces {
		s.Table.slots[ns].Access(func(cm *CentroidManager) {
			centroids[ns] = len(cm.Centroids)
			dps[ns] = cm.LenDP()
		})
	}
	s.Table.Unlock()
""")], """package zzdemo

import (
	"testing"
	"time"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	s := rpc.NewKMeansServer("localhost:0", func(vec []float64) *centroidmanager.CentroidManager {
		cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: 1000, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		return &cm
	})
	var ok bool
	for _, ns := range []string{"a", "b"} {
		s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: ns, DP: common.DataPoint{Vec: []float64{1, 2}}}, &ok)
	}
	in, out := make(chan bool), make(chan bool)
	go s.Table.Access("a", func(*centroidmanager.CentroidManager) { close(in); <-out })
	<-in
	go func() {
		var m rpc.MetaResp
		s.Meta(0, &m)
	}()
	time.Sleep(200 * time.Millisecond)
	done := make(chan bool)
	go func() {
		var n int
		s.LenDP("b", &n)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("one busy namespace blocks the others")
	}
	close(out)
}
""", "a Meta request while some namespace is busy with a long operation", "the lock of the table is held while waiting for the lock of a namespace, which blocks every namespace of the node")

seed("movevector-reply", "P15", [(S, """		*resp = cm.MoveVector()
""", """		cm.MoveVector()
		*resp = true
""")], """package zzdemo

import (
	"testing"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/searchutils"
)

func TestDemo(t *testing.T) {
	s := rpc.NewKMeansServer("localhost:3941", func(vec []float64) *centroidmanager.CentroidManager {
		cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: 1000, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		return &cm
	})
	stop, err := rpc.StartListen(s)
	if err != nil {
		t.Skip(err)
	}
	defer stop()
	c := rpc.KMeansClient("localhost:3941", "a", nil)
	c.AddDataPoint(common.DataPoint{Vec: []float64{1, 2}})
	c.NearestCentroids([]float64{1, 2}, 1, true)
	if c.MoveVector() {
		t.Fatal("reports that the vector was moved although there is nothing to move it by")
	}
}
""", "MoveVector on a namespace without any centroids left", "the client is not told the result of the operation")
