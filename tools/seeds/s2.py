import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from newseed import seed
CE = "pkg/kmeans/centroid/centroid.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"
S = "pkg/kmeans/rpc/server.go"
CL = "pkg/kmeans/rpc/client.go"
VE = "pkg/mathutils/vectools.go"
DI = "pkg/mathutils/distance.go"
KN = "pkg/searchutils/knn.go"
EL = "core/eventloop/eltask.go"

LOCAL = """package zzdemo

import (
	"math"
	"testing"
	"time"
	"trypo/pkg/kmeans/centroid"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/mathutils"
	"trypo/pkg/searchutils"
)

var _ = math.NaN
var _ = time.Now
var _ = mathutils.Vec
var _ centroid.Centroid

type DP = common.DataPoint

func dp(v ...float64) DP { return DP{Vec: v} }

func expired(v ...float64) DP {
	return DP{Vec: v, Expires: time.Now().Add(-time.Hour), ExpireEnabled: true}
}

func newC(dps ...DP) *centroid.Centroid {
	c, _ := centroid.NewCentroid(centroid.NewCentroidArgs{
		InitVec: make([]float64, len(dps[0].Vec)), KNNSearchFunc: searchutils.KNNEuc, KFNSearchFunc: searchutils.KFNEuc,
	})
	c.DataPoints = append(c.DataPoints, dps...)
	c.MoveVector()
	return &c
}

func newCM(cs ...*centroid.Centroid) *centroidmanager.CentroidManager {
	cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
		InitVec: []float64{0, 0}, CentroidDPThreshold: 1000, KNNSearchFunc: searchutils.KNNEuc, KFNSearchFunc: searchutils.KFNEuc,
	})
	cm.Centroids = cs
	cm.MoveVector()
	return &cm
}

func near(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) < 1e-6) {
			return false
		}
	}
	return true
}

func meanOf(cm *centroidmanager.CentroidManager) []float64 {
	i := 0
	v, _ := mathutils.VecMean(func() ([]float64, bool) {
		if i >= len(cm.Centroids) {
			return nil, false
		}
		i++
		return cm.Centroids[i-1].Vec(), true
	})
	return v
}

var _ = meanOf
var _ = newCM
var _ = newC
var _ = near
var _ = expired

"""

seed("lookup-surplus-lost", "P01", [(CM, "centroid.KNNLookup(vec, k-len(res), drain) {", "centroid.KNNLookup(vec, k, drain) {"),
    (CM, """			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)
""", """			case len(res) >= k && drain:
				break
""")], LOCAL + """func TestDemo(t *testing.T) {
	cm := newCM(newC(dp(1, 1), dp(1, 2)), newC(dp(9, 9), dp(9, 8), dp(8, 9)))
	got := cm.KNNLookup([]float64{1, 1}, 3, true)
	if len(got)+cm.LenDP() != 5 {
		t.Fatalf("5 datapoints became %v returned and %v stored", len(got), cm.LenDP())
	}
}
""", "a draining lookup that takes some results from one centroid and finds more than the rest in the next",
    "datapoints that a centroid drained beyond what was asked for are neither returned nor put back")

seed("unrankable-dropped", "P01", [(CE, """		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}""", """		for _, index := range indexes {
			if !receivers[index].AddDataPoint(data[j]) {
				c.AddDataPoint(data[j])
			}
		}""")], LOCAL + """func TestDemo(t *testing.T) {
	c := newC(dp(1, 1), dp(2, 2))
	c.DistributeDataPoints(2, []common.DataPointReceiver{newC(dp(1, 1, 1))})
	if c.LenDP() != 2 {
		t.Fatalf("stored 2 datapoints, now %v", c.LenDP())
	}
}
""", "receivers of which none can be compared with the datapoint (another dimension)",
    "a datapoint for which the search finds no receiver is dropped instead of being put back")

seed("removal-in-place", "P11", [(CE, """		c.vec, _ = mathutils.VecSub(c.vec, dp.Vec)
		c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints)-1))
""", """		n := float64(len(c.DataPoints))
		for i, x := range dp.Vec {
			c.vec[i] = (c.vec[i] - x) / (n - 1)
		}
"""), (CE, """		c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
		n :=""", """		n :="""), (CE, "(c.vec[i] - x)", "(c.vec[i]*n - x)")], LOCAL + """func TestDemo(t *testing.T) {
	c := newC(dp(1, 1), dp(3, 3))
	v := c.Vec()
	c.DrainUnordered(1)
	if v[0] != 2 || v[1] != 2 {
		t.Fatalf("the vector that was handed out became %v", v)
	}
}
""", "a vector that was handed out and is still used after a removal", "the vector of a centroid is updated in place")

seed("expire-bulk", "P12", [(CE, """	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
}""", """	kept := make([]common.DataPoint, 0, len(c.DataPoints))
	for _, dp := range c.DataPoints {
		if !dp.Expired() {
			kept = append(kept, dp)
		}
	}
	c.DataPoints = kept
}""")], LOCAL + """func TestDemo(t *testing.T) {
	c := newC(dp(1, 1))
	c.DataPoints = append(c.DataPoints, dp(3, 3))
	short := DP{Vec: []float64{8, 8}, Expires: time.Now().Add(300 * time.Millisecond), ExpireEnabled: true}
	c.DataPoints = append(c.DataPoints, short)
	c.MoveVector()
	time.Sleep(400 * time.Millisecond)
	c.Expire()
	if len(c.DataPoints) != 2 || !near(c.Vec(), []float64{2, 2}) {
		t.Fatalf("%v datapoints, vec %v", len(c.DataPoints), c.Vec())
	}
}
""", "a datapoint that expired after the vector was last computed", "expired datapoints still count in the vector of their centroid")

seed("drained-empty-stale", "P13", [(CM, """		res = append(res, centroid.DrainOrdered(portion)...)
		// Finalize internal vec update.
		updateVec(centroid.Vec())
""", """		res = append(res, centroid.DrainOrdered(portion)...)
		if centroid.LenDP() != 0 {
			updateVec(centroid.Vec())
		}
""")], LOCAL + """func TestDemo(t *testing.T) {
	cm := newCM(newC(dp(1, 1), dp(1, 9)), newC(dp(9, 9)))
	cm.DrainOrdered(10)
	if !near(cm.Vec(), meanOf(cm)) {
		t.Fatalf("vec %v, mean of the centroids %v", cm.Vec(), meanOf(cm))
	}
}
""", "an ordered drain that empties a centroid of several datapoints", "the vector of the manager keeps the vector its emptied centroid had before the drain")

seed("generator-one-expired", "P07", [(CE, """		for i < len(c.DataPoints) && c.DataPoints[i].Expired() {""", """		if i < len(c.DataPoints) && c.DataPoints[i].Expired() {""")], LOCAL + """func TestDemo(t *testing.T) {
	c := newC(dp(1, 1))
	c.DataPoints = []DP{expired(2, 2), expired(2, 3), dp(4, 4)}
	for _, d := range c.KNNLookup([]float64{2, 2}, 3, false) {
		if d.Expired() {
			t.Fatal("served an expired datapoint")
		}
	}
}
""", "two expired datapoints next to each other", "the second one of two expired datapoints in a row is served by lookups")

seed("portions-whole-rounds", "P10", [(CM, """				assigned++
			}
			// Optimal case.
			if assigned >= n {
				return portions
			}
		}
""", """				assigned++
			}
		}
		// Optimal case.
		if assigned >= n {
			return portions
		}
""")], LOCAL + """func TestDemo(t *testing.T) {
	cm := newCM(newC(dp(1, 1), dp(1, 2)), newC(dp(5, 5), dp(5, 6)), newC(dp(9, 9), dp(9, 8)))
	if n := len(cm.DrainUnordered(2)); n > 2 {
		t.Fatalf("asked for 2, got %v", n)
	}
}
""", "an amount that is not a multiple of the number of centroids", "more datapoints are drained than were asked for")

seed("euclidean-pairs", "P27", [(DI, """	for i := 0; i < len(v1); i++ {
""", """	if n := len(v1); n > 2 && n%2 == 0 { // Two at a time.
		for i := 0; i < n-2; i += 2 {
			a, b := v1[i]-v2[i], v1[i+1]-v2[i+1]
			r += a*a + b*b
		}
		return math.Sqrt(r), nil
	}
	for i := 0; i < len(v1); i++ {
""")], LOCAL + """func TestDemo(t *testing.T) {
	d, err := mathutils.EuclideanDistance([]float64{0, 0, 0, 0}, []float64{0, 0, 0, 2})
	if err != nil || math.Abs(d-2) > 1e-9 {
		t.Fatal(d, err)
	}
}
""", "vectors of an even dimension above two", "the last two components do not count in the distance")

NET = """package zzdemo

import (
	"testing"
	"time"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

var _ = time.Now

type DP = common.DataPoint

func node(t *testing.T, addr string) *rpc.KMeansServer {
	s := rpc.NewKMeansServer(addr, func(vec []float64) *centroidmanager.CentroidManager {
		cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: 1000, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		return &cm
	})
	stop, err := rpc.StartListen(s)
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(stop)
	return s
}

var _ = node

"""

seed("put-answered-is-stored", "P02", [("core/dps/putdps.go", """		client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
		ok := client.AddDataPoint(dp)
		if ok {""", """		var err error
		client := rpc.KMeansClient(addr.ToStr(), namespace, &err)
		ok := client.AddDataPoint(dp)
		if ok || err == nil {""")], NET.replace('import (', 'import (\n\t"trypo/core/dps"') + """func TestDemo(t *testing.T) {
	node(t, "localhost:3951")
	ok := dps.PutDataPointRand(dps.PutDataPointArgs{
		AddrOptions: []dps.Addr{{"localhost", "3951"}}, Namespace: "ns",
		DataPoint: DP{Vec: []float64{1, 2}, Expires: time.Now().Add(-time.Hour), ExpireEnabled: true},
	})
	if ok {
		t.Fatal("a refused datapoint is reported as stored")
	}
}
""", "a node that answers a put with a refusal (expired, or another dimension)", "any answer of a node counts as success of a put")

seed("ranked-misaligned", "P19", [("core/nodes/nodes.go", """	args.AddrOpts = rsp.intoAddrs() // Correlate order with 'gen'.
""", """	if addrs := rsp.intoAddrs(); len(addrs) == len(args.AddrOpts) {
		args.AddrOpts = addrs // Correlate order with 'gen'.
	}
"""), ("core/nodes/nodes.go", "args.KNNSearchFunc(args.Vec, gen, len(args.AddrOpts))", "args.KNNSearchFunc(args.Vec, gen, len(*rsp))")], NET.replace('import (', 'import (\n\t"trypo/core/nodes"') + """func TestDemo(t *testing.T) {
	node(t, "localhost:3953")
	if !rpc.KMeansClient("localhost:3953", "ns", nil).AddDataPoint(DP{Vec: []float64{1, 3}}) {
		t.Fatal("setup")
	}
	r := nodes.BestFitNodesFast(nodes.BestFitNodesArgs{
		AddrOpts: []nodes.Addr{{"localhost", "3954"}, {"localhost", "3953"}}, Namespace: "ns",
		Vec: []float64{1, 2}, KNNSearchFunc: searchutils.KNNCos,
	})
	if len(r) != 1 || r[0].Port != "3953" {
		t.Fatal(r)
	}
}
""", "a node among the options that does not answer", "vectors that were fetched are matched with the addresses that were asked instead of those that answered")

seed("trim-unknown-namespace", "P22", [(S, """	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		cm.MemTrim()
	})""", """	s.Table.Access(namespace, func(cm *CentroidManager) {
		cm.MemTrim()
	})
	return nil""")], NET + """func TestDemo(t *testing.T) {
	a := node(t, "localhost:3955")
	var n int
	if a.MemTrim("nope", &n) == nil {
		t.Fatal("no error for a namespace that does not exist")
	}
}
""", "a namespace that does not exist", "memory trimming of an unknown namespace is reported as done")

seed("split-range-inclusive", "P24", [(S, """		cm.SplitCentroids(func(c *Centroid) bool {
			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax""", """		cm.SplitCentroids(func(c *Centroid) bool {
			return c.LenDP() > args.DPRangeMin && c.LenDP() <= args.DPRangeMax""")], NET + """func TestDemo(t *testing.T) {
	a := node(t, "localhost:3955")
	var ok bool
	for i := 0; i < 4; i++ {
		a.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns", DP: DP{Vec: []float64{1, float64(i)}}}, &ok)
	}
	var n int
	a.SplitCentroids(rpc.SplitCentroidsArgs{NameSpace: "ns", DPRangeMin: 1, DPRangeMax: 4}, &n)
	var m rpc.MetaResp
	a.Meta(0, &m)
	if m.Centroids["ns"] != 1 {
		t.Fatal("split a centroid that is not in range")
	}
}
""", "a centroid whose size is exactly the upper limit", "a centroid at the limit is split")

seed("merge-at-split-interval", "P17", [(EL, "withSkip(cfg, cfg.TaskSkip.MergeCentroids, func() {", "withSkip(cfg, cfg.TaskSkip.SplitCentroids, func() {")],
"""package zzdemo

import (
	"strings"
	"sync"
	"testing"
	"time"
	"trypo/core/eventloop"
	"trypo/pkg/kmeans/centroidmanager"
	"trypo/pkg/kmeans/common"
	"trypo/pkg/kmeans/rpc"
	"trypo/pkg/searchutils"
)

type logger struct {
	mu    sync.Mutex
	tasks []string
}

func (l *logger) LogTask(s string) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.tasks = append(l.tasks, s)
}
func (l *logger) LogMeta(eventloop.MetaData) {}

func TestDemo(t *testing.T) {
	s := rpc.NewKMeansServer("localhost:3958", func(vec []float64) *centroidmanager.CentroidManager {
		cm, _ := centroidmanager.NewCentroidManager(centroidmanager.NewCentroidManagerArgs{
			InitVec: vec, CentroidDPThreshold: 1000, KNNSearchFunc: searchutils.KNNCos, KFNSearchFunc: searchutils.KFNCos,
		})
		return &cm
	})
	stop, err := rpc.StartListen(s)
	if err != nil {
		t.Skip(err)
	}
	defer stop()
	var ok bool
	s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns", DP: common.DataPoint{Vec: []float64{1, 2}}}, &ok)
	l := &logger{}
	addr := eventloop.Addr{"localhost", "3958"}
	off := 1001
	cfg := &eventloop.EventLoopConfig{
		LocalAddr: addr, RemoteAddrs: []eventloop.Addr{addr}, TimeoutLoop: time.Millisecond, TimeoutStep: time.Millisecond, L: l,
		TaskSkip: eventloop.EventLoopTaskSkipConfig{
			SplitCentroids: 1, MergeCentroids: off, MemTrim: off, Expire: off, LoadBalancing: off, Meta: off,
			DistributeDataPointsFast: off, DistributeDataPointsAccurate: off, DistributeDataPointsInternal: off,
		},
	}
	halt := eventloop.EventLoop(cfg)
	time.Sleep(500 * time.Millisecond)
	halt()
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, s := range l.tasks {
		if strings.Contains(s, "merging") {
			t.Fatal("merged although merging is switched off")
		}
	}
}
""", "different intervals for splitting and merging", "centroids are merged at the interval of splitting")

seed("expiry-lost-when-disabled", "P16", [("core/api/conv.go", """		r[i] = DP{
			Vec:           dp.Vec,
			Payload:       dp.Payload,
			Expires:       dp.Expires,
			ExpireEnabled: dp.ExpireEnabled,
		}""", """		r[i] = DP{Vec: dp.Vec, Payload: dp.Payload}
		if dp.ExpireEnabled {
			r[i].Expires = dp.Expires
			r[i].ExpireEnabled = true
		}""")], """package zzdemo

import (
	"testing"
	"time"
	"trypo/core/api"
	"trypo/pkg/kmeans/common"
)

func TestDemo(t *testing.T) {
	at := time.Unix(1000, 0)
	r := api.DataPointsToDPs([]common.DataPoint{{Vec: []float64{1}, Expires: at}})
	if !r[0].Expires.Equal(at) {
		t.Fatal("lost the expiry time")
	}
}
""", "a datapoint with an expiry time that is not enabled", "its expiry time is not served")

seed("empty-body-accepted", "P21", [("core/api/handler.go", """	err := json.Unmarshal(body, targetOpt)
	if err != nil {""", """	err := json.Unmarshal(body, targetOpt)
	if err != nil && len(body) != 0 {""")], """package api

import (
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	h := handler{}
	w := httptest.NewRecorder()
	h.queryDataPoint(w, httptest.NewRequest("POST", "/api/dp/query", strings.NewReader("")))
	if w.Code != 400 {
		t.Fatal(w.Code)
	}
}
""", "a request without a body", "a request without a body is processed with empty options", pkg="core/api")

seed("fanout-unbuffered", "P20", [("core/nodes/vecs.go", "	ch := make(chan fetchVecsRes, len(addrs))\n	for", "	ch := make(chan fetchVecsRes)\n	for")], """package nodes

import (
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	fetchVecs([]Addr{{"a", "1"}, {"b", "2"}, {"c", "3"}}, func(Addr) ([]float64, bool) { return nil, false })
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%v goroutines are left", n-before)
	}
}
""", "answers that nobody collects", "goroutines stay blocked on sending their answer", pkg="core/nodes")

seed("dim-checked-one-way", "P08", [(CE, "	if len(dp.Vec) != len(c.vec) || dp.Expired() {", "	if len(dp.Vec) < len(c.vec) || dp.Expired() {"),
    (VE, """func VecAdd(a, b []float64) ([]float64, bool) {
	if len(a) != len(b) {""", """func VecAdd(a, b []float64) ([]float64, bool) {
	if len(a) > len(b) {""")], LOCAL + """func TestDemo(t *testing.T) {
	c := newC(dp(1, 1))
	if c.AddDataPoint(dp(1, 2, 3)) {
		t.Fatal("took a vector of another dimension")
	}
}
""", "a datapoint with more dimensions than its centroid", "a longer vector is accepted and cut off")
