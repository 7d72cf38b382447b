#!/usr/bin/env python3
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from newseed import seed
CE = "pkg/kmeans/centroid/centroid.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"
CL = "pkg/kmeans/rpc/client.go"
NV = "core/nodes/vecs.go"
src = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "s2.py")).read()
LOCAL = src.split('LOCAL = """')[1].split('"""')[0]
NET = src.split('NET = """')[1].split('"""')[0]

seed("less-full-of-two", "P33", [(CM, """	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return false
	}
""", """	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 2)
	if len(indexes) == 0 {
		return false
	}
	// Spares a full centroid the split, if there is another one nearby.
	if len(indexes) > 1 && cm.Centroids[indexes[0]].LenDP() > 2*cm.Centroids[indexes[1]].LenDP()+4 {
		indexes = indexes[1:]
	}
""")],
LOCAL + """func TestDemo(t *testing.T) {
	full := newC(dp(1, 1), dp(1, 1), dp(1, 1), dp(1, 1), dp(1, 1), dp(1, 1), dp(1, 1), dp(1, 1))
	cm := newCM(newC(dp(9, 9)), full)
	if !cm.AddDataPoint(dp(1, 2)) || full.LenDP() != 9 {
		t.Fatalf("a datapoint was put elsewhere than into the nearest centroid, which has %v now", full.LenDP())
	}
}
""", "a nearest centroid that holds more than twice as much as the second nearest", "datapoints are put into the second nearest centroid")

seed("receiver-by-first", "P33", [(CE, """	for j := 0; j < len(data); j++ {
		i = 0 // Reset generator.
		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)
""", """	var indexes []int
	for j := 0; j < len(data); j++ {
		// Datapoints of a centroid are alike, so a result is good for a few.
		if j < 4 || j%4 == 0 || len(indexes) == 0 {
			i = 0 // Reset generator.
			indexes = c.knnSearchFunc(data[j].Vec, generator, 1)
		}
""")],
LOCAL + """func TestDemo(t *testing.T) {
	from := newC(dp(0, 51))
	for i := 2; i <= 16; i++ { // On one side and on the other one, in turns.
		y := 50 + float64(i)
		if i%2 == 0 {
			y = 50 - float64(i)
		}
		from.AddDataPoint(dp(0, y))
	}
	near, far := newC(dp(0, 0)), newC(dp(0, 100))
	from.DistributeDataPoints(16, []common.DataPointReceiver{near, far})
	if near.LenDP() != 9 || far.LenDP() != 9 {
		t.Fatalf("datapoints went to receivers that do not fit: %v %v", near.DataPoints, far.DataPoints)
	}
}
""", "a distribution of several datapoints that fit different receivers", "datapoints are given to the receiver that fits another datapoint")

seed("merge-by-other", "P24", [(CM, "			if !merge(candidate) { // Check if satisfied.", "			if !merge(other) && !merge(candidate) && len(cm.Centroids)-len(delMarks) < 3 { // Check if satisfied.")],
LOCAL + """func TestDemo(t *testing.T) {
	var cs []*centroid.Centroid
	for i := 0; i < 6; i++ {
		x := float64(i)
		cs = append(cs, newC(dp(1, x), dp(2, x), dp(3, x), dp(4, x)))
	}
	cm := newCM(cs...)
	cm.MergeCentroids(func(c *centroid.Centroid) bool { return c.LenDP() < 6 })
	for _, c := range cm.Centroids {
		if c.LenDP() > 8 {
			t.Fatalf("a centroid that was out of range absorbed more: it has %v", c.LenDP())
		}
	}
}
""", "a merge with more than three centroids, where the absorbing one leaves the range after one", "a centroid goes on absorbing others after it left the range")

seed("single-left-as-is", "P12", [(CL, """		dps := resp[i].DataPoints
		// No empty""", """		dps := resp[i].DataPoints
		if len(dps) == 1 && !drain {
			continue // Nothing to compute a mean of.
		}
		// No empty""")],
NET + """
func TestDemo(t *testing.T) {
	s := node(t, "localhost:3962")
	var ok bool
	s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns", DP: DP{Vec: []float64{1, 2}}}, &ok)
	var err error
	cs, found := rpc.KMeansClient("localhost:3962", "ns", &err).NearestCentroids([]float64{1, 2}, 1, false)
	if err != nil {
		t.Skip(err)
	}
	if !found || len(cs) != 1 || len(cs[0].Vec()) != 2 {
		t.Fatalf("a received centroid has no vector: %v %v", found, cs)
	}
}
""", "a remote lookup of a centroid with a single datapoint", "the centroid that the client returns has no vector and no search functions")

seed("flat-vectors-ignored", "P19", [(NV, """		vec := client.NearestCentroidVec(qVec)
		return vec, err == nil && vec != nil""", """		vec := client.NearestCentroidVec(qVec)
		// A zero vector can't be compared.
		var sum float64
		for _, x := range vec {
			sum += x
		}
		return vec, err == nil && vec != nil && sum != 0""")],
NET.replace('"trypo/pkg/kmeans/rpc"', '"trypo/core/nodes"\n\t"trypo/pkg/kmeans/rpc"\n\t"trypo/cfg"') + """
func TestDemo(t *testing.T) {
	s := node(t, "localhost:3964")
	var ok bool
	s.AddDataPoint(rpc.AddDataPointArgs{NameSpace: "ns", DP: DP{Vec: []float64{1, -1}}}, &ok)
	res := nodes.BestFitNodesAccurate(nodes.BestFitNodesArgs{
		AddrOpts: []cfg.Addr{{"localhost", "3964"}}, Vec: []float64{1, -1}, Namespace: "ns", KNNSearchFunc: searchutils.KNNCos,
	})
	if len(res) != 1 {
		t.Fatalf("a node that answered is not ranked: %v", res)
	}
}
""", "a node whose vector has components that cancel out", "the node is left out although it answered")
