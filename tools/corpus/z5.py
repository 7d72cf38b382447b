# Refactorings in styles the others do not use: method values and expressions,
# function types, named results, labels, tables, early copies, moved code.
CL = "pkg/kmeans/rpc/client.go"
SV = "pkg/kmeans/rpc/server.go"
SU = "pkg/kmeans/rpc/serverutils.go"
RPC = "pkg/kmeans/rpc/rpc.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"
CE = "pkg/kmeans/centroid/centroid.go"
GD = "core/dps/getdps.go"
PD = "core/dps/putdps.go"
DD = "core/dps/dps.go"
ND = "core/nodes/nodes.go"
VS = "core/nodes/vecs.go"
ET = "core/eventloop/eltask.go"
EU = "core/eventloop/eltaskutils.go"
EL = "core/eventloop/el.go"
HA = "core/api/handler.go"
KNN = "pkg/searchutils/knn.go"
VE = "pkg/mathutils/vectools.go"
MA = "cmd/service/service.go"

good("Z5-srv-methodexpr", (SV, '''	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		cm.MemTrim()
	})''', '''	return s.handleNamespaceErr(namespace, (*CentroidManager).MemTrim)'''), (SV, '''	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		cm.Expire()
	})''', '''	return s.handleNamespaceErr(namespace, (*CentroidManager).Expire)'''))
good("Z5-srv-drain-expr", (SV, '''		*resp = cm.DrainUnordered(args.N)
	})
}''', '''		*resp = cm.DrainUnordered(args.N)
	})
}

func (s *KMeansServer) drainBy(args DrainArgs, drain func(*CentroidManager, int) []DataPoint, resp *[]DataPoint) error {
	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = drain(cm, args.N)
	})
}'''), (SV, '''	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		*resp = cm.DrainOrdered(args.N)
	})''', '''	return s.drainBy(args, (*CentroidManager).DrainOrdered, resp)'''))
good("Z5-srv-move-local", (SV, '''		*resp = cm.MoveVector()
''', '''		moved := cm.MoveVector()
		*resp = moved
'''), (SV, '''		*resp = cm.LenDP()
''', '''		n := cm.LenDP()
		*resp = n
'''))
good("Z5-srv-in-range", (SV, '''		cm.SplitCentroids(func(c *Centroid) bool {
			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax
		})''', '''		cm.SplitCentroids(args.inRange)'''), (SV, '''		cm.MergeCentroids(func(c *Centroid) bool {
			return c.LenDP() > args.DPRangeMin && c.LenDP() < args.DPRangeMax
		})
	})
}''', '''		cm.MergeCentroids(args.inRange)
	})
}

func (a SplitCentroidsArgs) inRange(c *Centroid) bool {
	n := c.LenDP()
	return a.DPRangeMin < n && n < a.DPRangeMax
}'''))
good("Z5-srv-op-type", (SV, '''	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {
		*resp = cm.Vec()
	})''', '''	var read managerOp = func(cm *CentroidManager) { *resp = cm.Vec() }
	return s.handleNamespaceErr(namespace, read)'''), (SV, "", '''
type managerOp = func(*CentroidManager)
'''))
good("Z5-srv-distrib-shared", (SV, '''	for _, dp := range dps {
		gen := rsl.intoVecGenerator()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
	}
	return nil
}''', '''	for _, dp := range dps {
		s.handOut(dp, rsl.intoVecGenerator(), addrs, args.NameSpace)
	}
	return nil
}

// handOut gives a dp to the best of some nodes, or back to this one.
func (s *KMeansServer) handOut(dp DataPoint, gen vecGenerator, addrs []string, namespace string) {
	if distributeDP(dp, gen, addrs, namespace) {
		return
	}
	s.Table.Access(namespace, func(cm *CentroidManager) {
		cm.AddDataPoint(dp)
	})
}'''), (SV, '''		addrs := rsl.intoAddrs()
		if !distributeDP(dp, gen, addrs, args.NameSpace) {
			// Put back into self so the dp isn't lost.
			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
				cm.AddDataPoint(dp)
			})
		}
''', '''		s.handOut(dp, gen, rsl.intoAddrs(), args.NameSpace)
'''))
good("Z5-srv-steal-step", (SV, '''	for r.TransferredN < args.TransferDPLimit && clientErr == nil {
		// Can be improved. One at a time for convenience + readability.
		centroids, cOK := client.NearestCentroids(localVec, 1, true)

		if !cOK || len(centroids) == 0 {
			break
		}

		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			// @ unsafe, this is assuming cm has similar properties as centroids
			// @ (such as KNNSearchfunc, etc).
			cm.Centroids = append(cm.Centroids, centroids...)
			r.TransferredN += centroids[0].LenDP()
		})
	}
''', '''	step := func() bool {
		centroids, cOK := client.NearestCentroids(localVec, 1, true)
		if !cOK || len(centroids) == 0 {
			return false
		}
		s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
			cm.Centroids = append(cm.Centroids, centroids...)
			r.TransferredN += centroids[0].LenDP()
		})
		return true
	}
	for r.TransferredN < args.TransferDPLimit && clientErr == nil && step() {
	}
'''))
good("Z5-cl-methods-struct", (CL, '''	c.client(func(rc *rpc.Client) {
		args := SplitCentroidsArgs{
			NameSpace:  c.namespace,
			DPRangeMin: dpRangeMin,
			DPRangeMax: dpRangeMax,
		}
		*c.err = rc.Call("KMeansServer.SplitCentroids", args, nil)
	})''', '''	c.inRange("SplitCentroids", dpRangeMin, dpRangeMax)'''), (CL, '''	c.client(func(rc *rpc.Client) {
		args := SplitCentroidsArgs{
			NameSpace:  c.namespace,
			DPRangeMin: dpRangeMin,
			DPRangeMax: dpRangeMax,
		}
		*c.err = rc.Call("KMeansServer.MergeCentroids", args, nil)
	})
}''', '''	c.inRange("MergeCentroids", dpRangeMin, dpRangeMax)
}

func (c *kmeansClient) inRange(method string, min, max int) {
	c.client(func(rc *rpc.Client) {
		args := SplitCentroidsArgs{NameSpace: c.namespace, DPRangeMin: min, DPRangeMax: max}
		*c.err = rc.Call("KMeansServer."+method, args, nil)
	})
}'''))
good("Z5-cl-named-result", (CL, '''func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) []DataPoint {
	resp := make([]DataPoint, 0)

	c.client(func(rc *rpc.Client) {
		args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
		*c.err = rc.Call("KMeansServer.KNNLookup", args, &resp)
	})

	return resp
}''', '''func (c *kmeansClient) KNNLookup(vec []float64, k int, drain bool) (found []DataPoint) {
	found = make([]DataPoint, 0)
	args := KNNLookupArgs{NameSpace: c.namespace, Vec: vec, K: k, Drain: drain}
	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.KNNLookup", args, &found)
	})
	return
}'''))
good("Z5-cl-dp-helper", (CL, '''	var resp []DataPoint

	c.client(func(rc *rpc.Client) {
		args := DrainArgs{NameSpace: c.namespace, N: n}
		*c.err = rc.Call("KMeansServer.DrainOrdered", args, &resp)
	})

	return resp
}''', '''	return c.dataPoints("KMeansServer.DrainOrdered", DrainArgs{NameSpace: c.namespace, N: n})
}

func (c *kmeansClient) dataPoints(method string, args interface{}) []DataPoint {
	var resp []DataPoint
	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call(method, args, &resp)
	})
	return resp
}'''))
good("Z5-cl-nearestvec-args", (CL, '''		args := NearestCentroidVecArgs{NameSpace: c.namespace, Vec: vec}
		*c.err = rc.Call("KMeansServer.NearestCentroidVec", args, &resp)''', '''		var args NearestCentroidVecArgs
		args.NameSpace = c.namespace
		args.Vec = vec
		*c.err = rc.Call("KMeansServer.NearestCentroidVec", args, &resp)'''), (CL, '''	r := MetaResp{}
	c.client(''', '''	var r MetaResp
	c.client('''))
good("Z5-cm-lendp-index", (CM, '''	res := 0
	for _, centroid := range cm.Centroids {
		res += centroid.LenDP()
	}
	return res''', '''	n := 0
	for i := 0; i < len(cm.Centroids); i++ {
		n = cm.Centroids[i].LenDP() + n
	}
	return n'''))
good("Z5-cm-each", (CM, '''	for _, centroid := range cm.Centroids {
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
}''', '''	for _, centroid := range cm.Centroids {
		cm.change(centroid, centroid.Expire)
	}
}

// change does something to a centroid and keeps the internal vec up to date.
func (cm *CentroidManager) change(c *centroid.Centroid, f func()) {
	updateVec := cm.prepVecUpdate(c.Vec())
	f()
	updateVec(c.Vec())
}'''))
good("Z5-cm-each-expr", (CM, '''		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		centroid.Expire()
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
}''', '''		cm.change(centroid, (*centroidT).Expire)
	}
}

type centroidT = centroid.Centroid

func (cm *CentroidManager) change(c *centroidT, f func(*centroidT)) {
	updateVec := cm.prepVecUpdate(c.Vec())
	defer func() { updateVec(c.Vec()) }()
	f(c)
}'''))
good("Z5-cm-drain-op", (CM, '''	res := make([]common.DataPoint, 0)
	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
		centroid := cm.Centroids[centroidIndex]
		// Prep for internal vec update.
		updateVec := cm.prepVecUpdate(centroid.Vec())
		res = append(res, centroid.DrainOrdered(portion)...)
		// Finalize internal vec update.
		updateVec(centroid.Vec())
	}
	return res
}''', '''	return cm.drainBy((*centroid.Centroid).DrainOrdered, n)
}

func (cm *CentroidManager) drainBy(drain func(*centroid.Centroid, int) []common.DataPoint, n int) []common.DataPoint {
	res := make([]common.DataPoint, 0)
	portions := cm.centroidDataPointPortions(n)
	for i, c := range cm.Centroids {
		portion, ok := portions[i]
		if !ok {
			continue
		}
		updateVec := cm.prepVecUpdate(c.Vec())
		res = append(res, drain(c, portion)...)
		updateVec(c.Vec())
	}
	return res
}'''))
good("Z5-cm-split-first", (CM, '''	for i, centroid := range cm.Centroids {
		if !split(centroid) {
			continue
		}

		newCentroid, splitOK := cm.splitCentroid(i, centroid.LenDP()/2)
		if splitOK {
			newCentroids = append(newCentroids, newCentroid)
		}
	}
''', '''	for i := range cm.Centroids {
		if c := cm.Centroids[i]; split(c) {
			if half, ok := cm.splitCentroid(i, c.LenDP()/2); ok {
				newCentroids = append(newCentroids, half)
			}
		}
	}
'''))
good("Z5-cm-memtrim-named", (CM, '''	centroids := make([]*centroid.Centroid, 0, len(cm.Centroids))
	for _, centroid := range cm.Centroids {
		centroid.MemTrim()
		if centroid.LenDP() != 0 {
			centroids = append(centroids, centroid)
		}
	}
	cm.Centroids = centroids
''', '''	var kept []*centroid.Centroid
	for _, c := range cm.Centroids {
		if c.MemTrim(); c.LenDP() > 0 {
			kept = append(kept, c)
		}
	}
	cm.Centroids = kept
'''))
good("Z5-cm-merge-absorb", (CM, '''			other := cm.Centroids[centroidIndex]
			for _, dp := range other.DrainUnordered(other.LenDP()) {
				candidate.AddDataPoint(dp)
			}
''', '''			absorb(candidate, cm.Centroids[centroidIndex])
'''), (CM, "", '''
// absorb moves all datapoints of one centroid into another one.
func absorb(into, from *centroid.Centroid) {
	all := from.DrainUnordered(from.LenDP())
	for i := range all {
		into.AddDataPoint(all[i])
	}
}
'''))
good("Z5-cm-merge-filter", (CM, '''	for i := len(cm.Centroids) - 1; i > -1; i-- {
		if delMarks[i] {
			// Delete.
			cm.Centroids = append(cm.Centroids[:i], cm.Centroids[i+1:]...)
		}
	}
''', '''	kept := make([]*centroid.Centroid, 0, len(cm.Centroids))
	for i, c := range cm.Centroids {
		if !delMarks[i] {
			kept = append(kept, c)
		}
	}
	cm.Centroids = kept
'''))
good("Z5-cm-nearest-rm", (CM, '''			// Delete.
			cm.Centroids = append(cm.Centroids[:j], cm.Centroids[j+1:]...)
		}
	}
	return centroids, true
}''', '''			cm.removeAt(j)
		}
	}
	return centroids, true
}

func (cm *CentroidManager) removeAt(i int) {
	copy(cm.Centroids[i:], cm.Centroids[i+1:])
	cm.Centroids = cm.Centroids[:len(cm.Centroids)-1]
}'''))
good("Z5-cm-nearest-sorted-copy", (CM, '''		sort.Ints(indexes)
		for i := len(indexes) - 1; i > -1; i-- {
			j := indexes[i] // Abbreviation for actual centroid index.
''', '''		sorted := append([]int(nil), indexes...)
		sort.Ints(sorted)
		for i := len(sorted) - 1; i >= 0; i-- {
			j := sorted[i] // Abbreviation for actual centroid index.
'''))
good("Z5-cm-nearest-reverse-sort", (CM, '''		sort.Ints(indexes)
		for i := len(indexes) - 1; i > -1; i-- {
			j := indexes[i] // Abbreviation for actual centroid index.
''', '''		sort.Sort(sort.Reverse(sort.IntSlice(indexes)))
		for _, j := range indexes {
'''))
good("Z5-cm-knn-continue", (CM, '''			switch {
			// Keep adding to res until requirement is met.
			case len(res) < k:
				res = append(res, dp)

			// Requirement met and drain is on, so the dps iterated over
			// in this loop have to be added somewhere (back into centroid).
			case len(res) >= k && drain:
				centroid.AddDataPoint(dp)

			// Requirement met and drain is off, so no dps will be lost
			// if a break is done here.
			case len(res) >= k && !drain:
				break
			}
''', '''			if len(res) < k {
				res = append(res, dp)
				continue
			}
			if drain {
				centroid.AddDataPoint(dp)
			}
'''))
good("Z5-ce-take", (CE, '''	indexes := c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n)
''', '''	return c.take(c.kfnSearchFunc(c.vec, c.dataPointVecGenerator(), n), true)
}

// take copies the datapoints at some indexes, and removes them if asked to.
func (c *Centroid) take(indexes []int, remove bool) []common.DataPoint {
	res := make([]common.DataPoint, 0)
'''), (CE, '''func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
	res := make([]common.DataPoint, 0)
''', '''func (c *Centroid) DrainOrdered(n int) []common.DataPoint {
'''), (CE, '''		res = append(res, c.DataPoints[index])
	}
	// Sorting because this method will remove datapoints at these indexes, and
	// having things out of order can cause a rugpull (c.DataPoints index shift).
''', '''		res = append(res, c.DataPoints[index])
	}
	if !remove {
		return res
	}
'''))
good("Z5-ce-distri-try", (CE, '''		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}''', '''		given := false
		if len(indexes) > 0 {
			given = receivers[indexes[0]].AddDataPoint(data[j])
		}
		if !given {
			c.AddDataPoint(data[j])
		}'''))
good("Z5-ce-rm-switch", (CE, '''	if len(c.DataPoints) > 1 { // guard 0 div error.
		dp := c.DataPoints[index]
		c.vec = mathutils.VecMulScalar(c.vec, float64(len(c.DataPoints)))
		c.vec, _ = mathutils.VecSub(c.vec, dp.Vec)
		c.vec = mathutils.VecDivScalar(c.vec, float64(len(c.DataPoints)-1))
	}
''', '''	if n := len(c.DataPoints); n > 1 { // guard 0 div error.
		sum := mathutils.VecMulScalar(c.vec, float64(n))
		rest, _ := mathutils.VecSub(sum, c.DataPoints[index].Vec)
		c.vec = mathutils.VecDivScalar(rest, float64(n-1))
	}
'''))
good("Z5-rpc-with-lock", (RPC, '''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()

	if !ok {
		return false
	}
	slot.Access(f)
	return true
}''', '''	var slot *CManagerSlot
	t.locked(func() { slot = t.slots[namespace] })
	if slot == nil {
		return false
	}
	slot.Access(f)
	return true
}

func (t *CManagerTable) locked(f func()) {
	t.Lock()
	defer t.Unlock()
	f()
}'''))
good("Z5-rpc-find", (RPC, '''	t.Lock()
	slot, ok := t.slots[namespace]
	t.Unlock()

	if !ok {
		return false
	}
	slot.Access(f)
	return true
}''', '''	if slot, ok := t.find(namespace); ok {
		slot.Access(f)
		return true
	}
	return false
}

func (t *CManagerTable) find(namespace string) (slot *CManagerSlot, ok bool) {
	t.Lock()
	defer t.Unlock()
	slot, ok = t.slots[namespace]
	return
}'''))
good("Z5-rpc-accept-fn", (RPC, '''	go func() {
		for {
			cxn, err := ln.Accept()
			if err != nil {
				break
			}
			go serve(cxn)
		}
	}()
	return stop, nil
}''', '''	go acceptAll(ln, serve)
	return stop, nil
}

func acceptAll(ln net.Listener, serve func(net.Conn)) {
	for {
		cxn, err := ln.Accept()
		if err != nil {
			return
		}
		go serve(cxn)
	}
}'''))
good("Z5-rpc-slot-with", (SV, '''		slot := CManagerSlot{cManager: centroidManager}
''', '''		slot := CManagerSlot{}
		slot.cManager = centroidManager
'''))
good("Z5-kn-search", (KNN, '''	return KNNBrute(KNNBruteArgs{
		TargetVec:        targetVec,
		VecPoolGenerator: vecPoolGenerator,
		K:                k,
		Ascending:        true,
		DistFunc:         mathutils.EuclideanDistance,
	})''', '''	args := KNNBruteArgs{TargetVec: targetVec, VecPoolGenerator: vecPoolGenerator, K: k}
	args.Ascending = true
	args.DistFunc = mathutils.EuclideanDistance
	return KNNBrute(args)'''), (KNN, '''		K:                k,
		Ascending:        false,
		DistFunc:         mathutils.EuclideanDistance,
	})''', '''		K:                k,
		DistFunc:         mathutils.EuclideanDistance,
	})'''))
good("Z5-kn-worst-fn", (KNN, '''	similarity := math.MaxFloat64
	if !args.Ascending {
		similarity *= -1
	}
''', '''	similarity := -math.MaxFloat64
	if args.Ascending {
		similarity = math.MaxFloat64
	}
'''))
good("Z5-kn-continue", (KNN, '''		if args.Ascending && score < similarity {
			bubble(newSlot, res, true)
		}
		if !args.Ascending && score > similarity {
			bubble(newSlot, res, false)
		}
''', '''		if args.Ascending {
			if score < similarity {
				bubble(newSlot, res, true)
			}
		} else if score > similarity {
			bubble(newSlot, res, false)
		}
'''))
good("Z5-kn-index-named", (KNN, '''	i := 0
	for {
		// Next vector.
		v, cont := args.VecPoolGenerator()
		if !cont {
			break
		}
		// Next score.
		score, err := args.DistFunc(args.TargetVec, v)
		if err != nil {
			i++
			continue
		}
''', '''	for i := 0; ; i++ {
		// Next vector.
		v, cont := args.VecPoolGenerator()
		if !cont {
			break
		}
		// Next score.
		score, err := args.DistFunc(args.TargetVec, v)
		if err != nil {
			continue
		}
'''), (KNN, '''			bubble(newSlot, res, false)
		}
		i++
	}''', '''			bubble(newSlot, res, false)
		}
	}'''))
good("Z5-ve-range", (VE, '''	for i := 0; i < len(a); i++ {
		res[i] = a[i] - b[i]
	}''', '''	for i, x := range a {
		res[i] = x - b[i]
	}'''), (VE, '''	for i := 0; i < len(a); i++ {
		res[i] = a[i] + b[i]
	}''', '''	for i := range b {
		res[i] = b[i] + a[i]
	}'''))
good("Z5-ve-div-inv", (VE, '''	for i := 0; i < len(res); i++ {
		res[i] /= n
	}

	return res, true''', '''	return VecDivScalar(res, n), true'''))
good("Z5-ve-count-int", (VE, '''	n := 1.
	for {''', '''	count := 1
	for {'''), (VE, '''		n += 1
	}
''', '''		count++
	}
	n := float64(count)
'''))
good("Z5-ha-helpers", (HA, '''	putOk := false
	switch opts.Accurate {
	case true:
		putOk = dps.PutDataPointAccurate(args)
	case false:
		putOk = dps.PutDataPointFast(args)
	}

	// Will be false if none of the nodes are initialised.
	if !putOk {
		putOk = dps.PutDataPointRand(args)
	}

	// reply.
	switch putOk {
	case true:
		w.WriteHeader(http.StatusOK)
	case false:
		w.WriteHeader(http.StatusInternalServerError)
	}
}''', '''	if put(args, opts.Accurate) {
		w.WriteHeader(http.StatusOK)
		return
	}
	w.WriteHeader(http.StatusInternalServerError)
}

// put stores a datapoint in the best node, or in any if none is initialised.
func put(args dps.PutDataPointArgs, accurate bool) bool {
	best := dps.PutDataPointFast
	if accurate {
		best = dps.PutDataPointAccurate
	}
	return best(args) || dps.PutDataPointRand(args)
}'''))
good("Z5-ha-decoder-conv", (HA, '''	var respConv []DP
	if resp != nil {
		respConv = DataPointsToDPs(resp)
	}

	b, _ := json.Marshal(respConv)
	w.WriteHeader(http.StatusOK)
	w.Write(b)
}''', '''	reply(w, resp)
}

func reply(w http.ResponseWriter, found []common.DataPoint) {
	var conv []DP
	if found != nil {
		conv = DataPointsToDPs(found)
	}
	b, _ := json.Marshal(conv)
	w.WriteHeader(http.StatusOK)
	w.Write(b)
}'''))
good("Z5-et-shared", (ET, '''	withSkip(cfg, cfg.TaskSkip.Expire, func() {
		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') expire", namespace))

			go rpc.KMeansClient(addr.ToStr(), namespace, nil).Expire()
		})
	})
}''', '''	local(cfg, cfg.TaskSkip.Expire, "expire", func(addr Addr, namespace string) {
		go rpc.KMeansClient(addr.ToStr(), namespace, nil).Expire()
	})
}

func local(cfg *EventLoopConfig, interval int, name string, duty func(Addr, string)) {
	withSkip(cfg, interval, func() {
		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') %v", namespace, name))
			duty(addr, namespace)
		})
	})
}'''), (ET, '''	withSkip(cfg, cfg.TaskSkip.SplitCentroids, func() {
		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') splitting", namespace))

			client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
			go client.SplitCentroids(cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)
		})
	})''', '''	local(cfg, cfg.TaskSkip.SplitCentroids, "splitting", func(addr Addr, namespace string) {
		client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
		go client.SplitCentroids(cfg.SplitCentroidsMin, cfg.SplitCentroidsMax)
	})'''))
good("Z5-et-addrs-fn", (ET, '''				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)
				n := cfg.DistributeDataPointsFastN
				client.DistributeDataPointsFast(addrs, n)
''', '''				distribute := rpc.KMeansClient(addr.ToStr(), namespace, nil).DistributeDataPointsFast
				distribute(addrs, cfg.DistributeDataPointsFastN)
'''))
good("Z5-et-lb-early", (ET, '''					if transferDPN == 0 {
						continue
					}

					// No point in transferring if this would put 'other' below
					// mean -- unless it's the only one that has anything for
					// that namespace.
					if otherLen-transferDPN < dpMean+margin && len(addrs) != 1 {
						continue
					}
''', '''					alone := len(addrs) == 1
					left := otherLen - transferDPN
					if transferDPN == 0 || !alone && left < dpMean+margin {
						continue
					}
'''))
good("Z5-nd-one-way", (ND, '''	fch := fetcher()
	rsp := fch.collect()
	gen := rsp.intoVecGenerator()

	args.AddrOpts = rsp.intoAddrs() // Correlate order with 'gen'.
	for _, index := range args.KNNSearchFunc(args.Vec, gen, len(args.AddrOpts)) {
		res = append(res, args.AddrOpts[index])
	}''', '''	answers := *fetcher().collect()
	for _, index := range args.KNNSearchFunc(args.Vec, answers.intoVecGenerator(), len(answers)) {
		res = append(res, answers[index].addr)
	}'''))
good("Z5-gd-struct-less", (GD, '''func (a *GetDataPointsArgs) toPrivate(newAddrs []Addr) getDataPointsArgs {
	return getDataPointsArgs{
		addrOpts:  newAddrs,
		namespace: a.Namespace,
		queryVec:  a.QueryVec,
		n:         a.N,
		drain:     a.Drain,
	}
}''', '''func (a *GetDataPointsArgs) toPrivate(newAddrs []Addr) (p getDataPointsArgs) {
	p.addrOpts = newAddrs
	p.namespace = a.Namespace
	p.queryVec = a.QueryVec
	p.n, p.drain = a.N, a.Drain
	return p
}'''))
good("Z5-pd-bound", (PD, '''	addrs := nodes.BestFitNodesFast(args.toBestFitNodesArgs())
	return putDataPoint(addrs, args.Namespace, args.DataPoint)
}''', '''	return args.putBy(nodes.BestFitNodesFast)
}

func (a *PutDataPointArgs) putBy(rank func(nodes.BestFitNodesArgs) []Addr) bool {
	return putDataPoint(rank(a.toBestFitNodesArgs()), a.Namespace, a.DataPoint)
}'''), (PD, '''	addrs := nodes.BestFitNodesAccurate(args.toBestFitNodesArgs())
	return putDataPoint(addrs, args.Namespace, args.DataPoint)''', '''	return args.putBy(nodes.BestFitNodesAccurate)'''))
good("Z5-ma-split", (MA, '''	// RPC node spawn.
	rpcNode := rpc.NewKMeansServer(cfg.LocalAddrRPC.ToStr(), cmSpawner)
	rpcStop, err := rpc.StartListen(rpcNode)
	if err != nil {
		panic("failed to start rpc node")
	}
	defer rpcStop()
''', '''	// RPC node spawn.
	defer listen(cmSpawner)()
'''), (MA, '''	err = api.Start(''', '''	err := api.Start('''), (MA, "", '''
func listen(spawn rpc.CentroidManagerFactoryF) (stop func()) {
	node := rpc.NewKMeansServer(cfg.LocalAddrRPC.ToStr(), spawn)
	stop, err := rpc.StartListen(node)
	if err != nil {
		panic("failed to start rpc node")
	}
	return stop
}
'''))
good("Z5-ma-serve", (MA, '''	err = api.Start(api.APIConfig{
		Addr:         cfg.LocalAddrAPI,
		RPCAddrs:     cfg.OtherAddrRPC,
		ReadTimeout:  time.Second * 5,
		WriteTimeout: time.Second * 5,
	})
	if err != nil {
		panic(err)
	}''', '''	const timeout = 5 * time.Second
	web := api.APIConfig{Addr: cfg.LocalAddrAPI, RPCAddrs: cfg.OtherAddrRPC}
	web.ReadTimeout, web.WriteTimeout = timeout, timeout
	if err := api.Start(web); err != nil {
		panic(err)
	}'''))

good("Z5-ce-gen-type", (CE, "FUNC func (c *Centroid) dataPointVecGenerator()", '''
func (c *Centroid) dataPointVecGenerator() func() ([]float64, bool) {
	return (&dpCursor{c: c}).next
}

type dpCursor struct {
	c *Centroid
	i int
}

func (d *dpCursor) next() ([]float64, bool) {
	for d.i < len(d.c.DataPoints) && d.c.DataPoints[d.i].Expired() {
		d.c.rmDataPoint(d.i)
	}
	if d.i >= len(d.c.DataPoints) {
		return nil, false
	}
	d.i++
	return d.c.DataPoints[d.i-1].Vec, true
}'''))
good("Z5-ce-memtrim-direct", (CE, "FUNC func (c *Centroid) MemTrim()", '''
func (c *Centroid) MemTrim() {
	var dps []common.DataPoint
	for _, dp := range c.DataPoints {
		if !dp.Expired() {
			dps = append(dps, dp)
		}
	}
	c.DataPoints = dps
	c.MoveVector()
}'''))
good("Z5-el-go-method", (EL, '''	go func() {
		// Note: tasks are _not_ arbitrarily ordered.
		for !cfg.internal.isStopped() {''', '''	go run(cfg)

	return func() {
		atomic.StoreInt32(&cfg.internal.stopped, 1)
	}
}

func run(cfg *EventLoopConfig) {
	{
		for !cfg.internal.isStopped() {'''), (EL, '''	}()

	return func() {
		atomic.StoreInt32(&cfg.internal.stopped, 1)
	}
}''', '''	}
}'''))
good("Z5-cm-knn-cursor", (CM, "FUNC func (cm *CentroidManager) centroidVecGenerator()", '''
func (cm *CentroidManager) centroidVecGenerator() func() ([]float64, bool) {
	cur := centroidCursor{of: cm}
	return cur.next
}

type centroidCursor struct {
	of *CentroidManager
	at int
}

func (c *centroidCursor) next() (vec []float64, more bool) {
	if more = c.at < len(c.of.Centroids); more {
		vec = c.of.Centroids[c.at].Vec()
		c.at++
	}
	return vec, more
}'''))
good("Z5-vs-method-fetch", (VS, '''	return fetchVecs(addrs, func(addr Addr) ([]float64, bool) {
		var err error
		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()
		return vec, err == nil && vec != nil
	})
}''', '''	return fetchVecs(addrs, fetcher{namespace: namespace}.vec)
}

type fetcher struct{ namespace string }

func (f fetcher) vec(addr Addr) ([]float64, bool) {
	var err error
	vec := rpc.KMeansClient(addr.ToStr(), f.namespace, &err).Vec()
	return vec, err == nil && vec != nil
}'''))
good("Z5-et-method-duty", (ET, '''		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') memtrim", namespace))

			go rpc.KMeansClient(addr.ToStr(), namespace, nil).MemTrim()
		})''', '''		withLocalAddrNamespaces(cfg, cfg.memTrim)'''), (ET, "", '''
func (cfg *EventLoopConfig) memTrim(addr Addr, namespace string) {
	cfg.L.LogTask(fmt.Sprintf("(ns '%v') memtrim", namespace))
	go rpc.KMeansClient(addr.ToStr(), namespace, nil).MemTrim()
}
'''))
good("Z5-el-steps-table", (EL, '''			elStep(cfg, eltExpire)
			elStep(cfg, eltMemTrim)

			elStep(cfg, eltMergeCentroids)
			elStep(cfg, eltSplitCentroids)
''', '''			for _, task := range []func(*EventLoopConfig){
				eltExpire, eltMemTrim, eltMergeCentroids, eltSplitCentroids,
			} {
				elStep(cfg, task)
			}
'''))
good("Z5-rpc-stop-defer", (RPC, '''		mu.Lock()
		delete(conns, cxn)
		mu.Unlock()
	}
''', '''		func() {
			mu.Lock()
			defer mu.Unlock()
			delete(conns, cxn)
		}()
	}
'''))
good("Z5-srv-add-flow", (SV, '''		if s.Table.AddSlot(args.NameSpace, &slot) {
			*resp = true
			return nil
		}
		s.Table.Access(args.NameSpace, add)
	}
	return nil''', '''		created := s.Table.AddSlot(args.NameSpace, &slot)
		if !created {
			s.Table.Access(args.NameSpace, add)
		} else {
			*resp = true
		}
	}
	return nil'''))
good("Z5-srv-meta-endpoint", (SV, '''	(*resp).Centroids = centroids
	(*resp).DPs = dps
''', '''	*resp = MetaResp{Centroids: centroids, DPs: dps}
'''))
good("Z5-srv-nearestvec", (SV, '''		centroids, _ := cm.NearestCentroids(args.Vec, 1, false)
		if len(centroids) != 0 {
			*r = centroids[0].Vec()
		}''', '''		if centroids, ok := cm.NearestCentroids(args.Vec, 1, false); ok {
			*r = centroids[0].Vec()
		}'''))
bad("Z5-b-client-ok-exact", "P01 P15 P22", (CL, "	return resp, true\n", "	return resp, len(resp) == n\n"))
bad("Z5-b-cm-ok-exact", "P01 P15 P22 P09", (CM, "	return centroids, true\n", "	return centroids, len(centroids) == n\n"))
bad("Z5-b-client-ok-many", "P01 P15 P22", (CL, "	if resp == nil || len(resp) == 0 {\n		return nil, false", "	if resp == nil || len(resp) < n {\n		return nil, false"))
