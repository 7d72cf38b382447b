# More refactorings: interfaces, embedding, pointers to elements, inverted flags,
# constants, deferred steps, other collections.
CL = "pkg/kmeans/rpc/client.go"
SV = "pkg/kmeans/rpc/server.go"
SU = "pkg/kmeans/rpc/serverutils.go"
RPC = "pkg/kmeans/rpc/rpc.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"
CE = "pkg/kmeans/centroid/centroid.go"
GD = "core/dps/getdps.go"
PD = "core/dps/putdps.go"
DD = "core/dps/dps.go"
ND = "core/nodes/nodes.go"
VS = "core/nodes/vecs.go"
ET = "core/eventloop/eltask.go"
EU = "core/eventloop/eltaskutils.go"
EL = "core/eventloop/el.go"
EC = "core/eventloop/cfg.go"
HA = "core/api/handler.go"
AP = "core/api/api.go"
KNN = "pkg/searchutils/knn.go"
VE = "pkg/mathutils/vectools.go"
DI = "pkg/mathutils/distance.go"
MA = "cmd/service/service.go"
DPF = "pkg/kmeans/common/datapoint.go"
AR = "pkg/arbiter/arbiter.go"

good("Z6-ce-ptr", (CE, '''	for _, index := range indexes {
		res = append(res, c.DataPoints[index])
	}
''', '''	for _, index := range indexes {
		dp := &c.DataPoints[index]
		res = append(res, *dp)
	}
'''))
good("Z6-ce-add-fields", (CE, '''	if len(dp.Vec) != len(c.vec) || dp.Expired() {
		return false
	}
	c.addDataPoint(dp)
	return true
''', '''	accepted := len(dp.Vec) == len(c.vec) && !dp.Expired()
	if accepted {
		c.addDataPoint(dp)
	}
	return accepted
'''))
good("Z6-ce-expire-backwards", (CE, '''	i := 0
	for i < len(c.DataPoints) {
		if c.DataPoints[i].Expired() {
			c.rmDataPoint(i)
			continue
		}
		i++
	}
''', '''	for i := len(c.DataPoints) - 1; i >= 0; i-- {
		if dp := c.DataPoints[i]; dp.Expired() {
			c.rmDataPoint(i)
		}
	}
'''))
good("Z6-ce-drain-first", (CE, '''		if !c.DataPoints[0].Expired() {
			res = append(res, c.DataPoints[0])
		}
		c.rmDataPoint(0)
''', '''		first := c.DataPoints[0]
		c.rmDataPoint(0)
		if first.Expired() {
			continue
		}
		res = append(res, first)
'''))
good("Z6-ce-distri-range", (CE, '''	for j := 0; j < len(data); j++ {
		i = 0 // Reset generator.
		indexes := c.knnSearchFunc(data[j].Vec, generator, 1)
		// Put back into self if (1) search failed or (2) adder failed to add.
		if len(indexes) == 0 || !receivers[indexes[0]].AddDataPoint(data[j]) {
			c.AddDataPoint(data[j])
		}
	}''', '''	give := func(dp common.DataPoint) bool {
		i = 0 // Reset generator.
		best := c.knnSearchFunc(dp.Vec, generator, 1)
		return len(best) != 0 && receivers[best[0]].AddDataPoint(dp)
	}
	for _, dp := range data {
		if !give(dp) {
			c.AddDataPoint(dp)
		}
	}'''))
good("Z6-cm-holder-iface", (CM, "FUNC func (cm *CentroidManager) LenDP()", '''
type sized interface{ LenDP() int }

func total(of ...sized) (n int) {
	for _, x := range of {
		n += x.LenDP()
	}
	return n
}

func (cm *CentroidManager) LenDP() int {
	n := 0
	for _, c := range cm.Centroids {
		n += total(c)
	}
	return n
}'''))
good("Z6-cm-add-switch", (CM, '''	indexes := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	if len(indexes) == 0 {
		return false
	}

	// Try add to nearest centroid.
	centroid := cm.Centroids[indexes[0]]          // Abbreviation.
	updateVec''', '''	nearest := cm.knnSearchFunc(dp.Vec, cm.centroidVecGenerator(), 1)
	switch len(nearest) {
	case 0:
		return false
	}
	at := nearest[0]

	// Try add to nearest centroid.
	centroid := cm.Centroids[at]
	updateVec'''), (CM, "cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)", "cm.splitCentroid(at, cm.centroidDPThreshold/2)"))
good("Z6-cm-split-half", (CM, '''		newCentroid, splitOK := cm.splitCentroid(i, centroid.LenDP()/2)
		if splitOK {
			newCentroids = append(newCentroids, newCentroid)
		}
''', '''		half := centroid.LenDP() / 2
		newCentroid, splitOK := cm.splitCentroid(i, half)
		if !splitOK {
			continue
		}
		newCentroids = append(newCentroids, newCentroid)
'''))
good("Z6-cm-marks-struct", (CM, '''	delMarks := make(map[int]bool, len(cm.Centroids))
''', '''	delMarks := make([]bool, len(cm.Centroids))
'''))
good("Z6-cm-portion-order", (CM, '''	for centroidIndex, portion := range cm.centroidDataPointPortions(n) {
		cm.Centroids[centroidIndex].DistributeDataPoints(portion, receivers)
	}
''', '''	portions := cm.centroidDataPointPortions(n)
	for i := range cm.Centroids {
		if portion := portions[i]; portion > 0 {
			cm.Centroids[i].DistributeDataPoints(portion, receivers)
		}
	}
'''))
good("Z6-cm-vec-ok", (CM, '''	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
	if ok {
		cm.vec = vec
	}
	return ok
}''', '''	vec, ok := mathutils.VecMean(cm.centroidVecGenerator())
	if !ok {
		return false
	}
	cm.vec = vec
	return true
}'''))
good("Z6-cm-nearest-split", (CM, '''	centroids := make([]*centroid.Centroid, 0, len(indexes))
	for _, index := range indexes {
		centroids = append(centroids, cm.Centroids[index])
	}
''', '''	centroids := make([]*centroid.Centroid, len(indexes))
	for i, index := range indexes {
		centroids[i] = cm.Centroids[index]
	}
'''))
good("Z6-rpc-table-named", (RPC, '''	namespaces := make([]string, 0, len(t.slots))
	for namespace := range t.slots {
		namespaces = append(namespaces, namespace)
	}

	return namespaces
''', '''	i, namespaces := 0, make([]string, len(t.slots))
	for namespace := range t.slots {
		namespaces[i] = namespace
		i++
	}
	return namespaces
'''))
good("Z6-rpc-client-fields", (RPC, '''	if err == nil {
		var e error
		err = &e
	}
	return &kmeansClient{''', '''	if err == nil {
		err = new(error)
	}
	return &kmeansClient{'''))
good("Z6-rpc-conn-set", (RPC, '''	conns := make(map[net.Conn]bool)
''', '''	conns := make(map[net.Conn]struct{})
'''), (RPC, '''		conns[cxn] = true
''', '''		conns[cxn] = struct{}{}
'''))
good("Z6-rpc-tracker", (RPC, '''	var mu sync.Mutex // Guards the two vars below.
	conns := make(map[net.Conn]bool)
	stopped := false
	stop = func() {
		ln.Close()
		mu.Lock()
		defer mu.Unlock()
		stopped = true
		for conn := range conns {
			conn.Close()
		}
	}

	serve := func(cxn net.Conn) {
		defer cxn.Close()

		mu.Lock()
		if stopped {
			mu.Unlock()
			return
		}
		conns[cxn] = true
		mu.Unlock()

		handler.ServeConn(cxn)

		mu.Lock()
		delete(conns, cxn)
		mu.Unlock()
	}
''', '''	open := connections{all: make(map[net.Conn]bool)}
	stop = func() {
		ln.Close()
		open.closeAll()
	}

	serve := func(cxn net.Conn) {
		defer cxn.Close()
		if !open.add(cxn) {
			return
		}
		defer open.remove(cxn)
		handler.ServeConn(cxn)
	}
'''), (RPC, "", '''
// connections are those that are being served.
type connections struct {
	sync.Mutex
	all     map[net.Conn]bool
	stopped bool
}

func (c *connections) add(cxn net.Conn) bool {
	c.Lock()
	defer c.Unlock()
	if c.stopped {
		return false
	}
	c.all[cxn] = true
	return true
}

func (c *connections) remove(cxn net.Conn) {
	c.Lock()
	defer c.Unlock()
	delete(c.all, cxn)
}

func (c *connections) closeAll() {
	c.Lock()
	defer c.Unlock()
	c.stopped = true
	for cxn := range c.all {
		cxn.Close()
	}
}
'''))
good("Z6-sv-nserr-flag", (SV, '''	var localVec []float64
	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
		localVec = cm.Vec()
	})
''', '''	var localVec []float64
	_ = s.Table.Access(args.NameSpace, func(cm *CentroidManager) {
		vec := cm.Vec()
		localVec = vec
	})
'''))
good("Z6-sv-drainfor", (SV, '''	dps := make([]DataPoint, 0)

	// Not wrapping the code below with this because it locks the CentroidManager.
	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		// Nothing would take care of drained dps without any receivers.
		if len(args.AddrOptions) != 0 {
			dps = append(dps, cm.DrainOrdered(args.N)...)
		}
	})

	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {
		return nsErr
	}

	for _, dp := range dps {
		// Fetch''', '''	var dps []DataPoint
	if err := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {
		if len(args.AddrOptions) > 0 {
			dps = cm.DrainOrdered(args.N)
		}
	}); err != nil {
		return err
	}

	for _, dp := range dps {
		// Fetch'''))
good("Z6-sv-distribute-first", (SV, '''	for _, index := range searchutils.KNNCos(dp.Vec, gen, len(addrs)) {
		client := KMeansClient(addrs[index], namespace, nil)
		if client.AddDataPoint(dp) {
			return true
		}
	}
	return false
''', '''	given := false
	order := searchutils.KNNCos(dp.Vec, gen, len(addrs))
	for i := 0; i < len(order) && !given; i++ {
		given = KMeansClient(addrs[order[i]], namespace, nil).AddDataPoint(dp)
	}
	return given
'''))
good("Z6-sv-meta-acc", (SV, '''	centroids := make(map[string]int, len(namespaces))
	dps := make(map[string]int, len(namespaces))

	for _, ns := range namespaces {
		s.Table.Access(ns, func(cm *CentroidManager) {
			centroids[ns] = len(cm.Centroids)
			dps[ns] = cm.LenDP()
		})
	}

	(*resp).Centroids = centroids
	(*resp).DPs = dps
''', '''	resp.Centroids = make(map[string]int, len(namespaces))
	resp.DPs = make(map[string]int, len(namespaces))
	for _, ns := range namespaces {
		s.Table.Access(ns, func(cm *CentroidManager) {
			resp.Centroids[ns], resp.DPs[ns] = len(cm.Centroids), cm.LenDP()
		})
	}
'''))
good("Z6-su-range-chan", (SU, '''	for i := 0; i < f.chlen; i++ {
		data := <-f.ch
		if data.ok {
			r = append(r, data)
		}
	}
''', '''	for left := f.chlen; left > 0; left-- {
		if data := <-f.ch; data.ok {
			r = append(r, data)
		}
	}
'''))
good("Z6-vs-result-fn", (VS, '''		go func(addr Addr) {
			vec, ok := fetchFunc(addr)
			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}
		}(addr)
''', '''		go fetchInto(ch, addr, fetchFunc)
'''), (VS, "", '''
func fetchInto(ch chan<- fetchVecsRes, addr Addr, fetch func(Addr) ([]float64, bool)) {
	res := fetchVecsRes{addr: addr}
	res.vec, res.ok = fetch(addr)
	ch <- res
}
'''))
good("Z6-cl-near-keep", (CL, '''	for i := len(resp) - 1; i >= 0; i-- { // Backwards for removal safety.
		if resp[i] == nil || resp[i].LenDP() == 0 {
			resp = append(resp[:i], resp[i+1:]...)
		}
	}
''', '''	kept := make([]*Centroid, 0, len(resp))
	for _, cent := range resp {
		if cent != nil && cent.LenDP() > 0 {
			kept = append(kept, cent)
		}
	}
	resp = kept
'''))
good("Z6-cl-dial-err", (CL, '''	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
	defer client.Close()
	taskF(client)
''', '''	if client, err := rpc.Dial("tcp", c.remoteAddr); err == nil {
		defer client.Close()
		taskF(client)
	} else {
		*c.err = err
	}
'''))
good("Z6-cl-consts", (CL, '''"KMeansServer.KNNLookup"''', '''service+".KNNLookup"'''), (CL, '''"KMeansServer.Vec"''', '''service+".Vec"'''), (CL, "", '''
const service = "KMeansServer"
'''))
good("Z6-cl-fmt", (CL, '''		*c.err = rc.Call("KMeansServer.Meta", 0, &r)
''', '''		err := rc.Call("KMeansServer.Meta", 0, &r)
		*c.err = err
'''))
good("Z6-gd-remaining", (GD, '''	res := make([]DataPoint, 0)
	for _, addr := range args.addrOpts {
		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)
		dps := client.KNNLookup(args.queryVec, args.n-len(res), args.drain)
		res = append(res, dps...)
		if len(res) >= args.n {
			break
		}
	}
	return res''', '''	var res = []DataPoint{}
	for i := 0; i < len(args.addrOpts); i++ {
		client := rpc.KMeansClient(args.addrOpts[i].ToStr(), args.namespace, nil)
		missing := args.n - len(res)
		res = append(res, client.KNNLookup(args.queryVec, missing, args.drain)...)
		if len(res) >= args.n {
			return res
		}
	}
	return res'''))
good("Z6-gd-query-struct", (GD, '''type getDataPointsArgs struct {
	addrOpts  []Addr
''', '''type getDataPointsArgs struct {
	addrOpts []Addr
	query
}

type query struct {
'''), (GD, '''	return getDataPointsArgs{
		addrOpts:  newAddrs,
		namespace: a.Namespace,
		queryVec:  a.QueryVec,
		n:         a.N,
		drain:     a.Drain,
	}''', '''	return getDataPointsArgs{
		addrOpts: newAddrs,
		query:    query{namespace: a.Namespace, queryVec: a.QueryVec, n: a.N, drain: a.Drain},
	}'''))
good("Z6-dd-perm", (DD, '''	res := make([]Addr, len(addrs))
	copy(res, addrs)

	for i := 0; i < len(addrs); i++ {
		rand.Seed(time.Now().UnixNano())
		j := rand.Intn(len(addrs))
		res[i], res[j] = res[j], res[i]
	}
	return res''', '''	rand.Seed(time.Now().UnixNano())
	res := make([]Addr, len(addrs))
	for i, j := range rand.Perm(len(addrs)) {
		res[i] = addrs[j]
	}
	return res'''))
good("Z6-nd-loop", (ND, '''	for _, index := range args.KNNSearchFunc(args.Vec, gen, len(args.AddrOpts)) {
		res = append(res, args.AddrOpts[index])
	}
	return res''', '''	ranked := args.KNNSearchFunc(args.Vec, gen, len(args.AddrOpts))
	for i := 0; i < len(ranked); i++ {
		best := args.AddrOpts[ranked[i]]
		res = append(res, best)
	}
	return res'''))
good("Z6-et-const", (ET, '''	// Intervals over 1000 are never ran.
	if interval <= 1000 && cfg.internal.iter%interval == 0 {
		task()
	}
''', '''	const never = 1001
	if interval >= never {
		return
	}
	if due := cfg.internal.iter % interval; due != 0 {
		return
	}
	task()
'''))
good("Z6-et-margin", (ET, '''				dpTotal := 0
				for _, dpLen := range addrsLens {
					dpTotal += dpLen
				}
				dpMean := dpTotal / len(addrsLens)
''', '''				dpMean := meanLen(addrsLens)
'''), (ET, "", '''
func meanLen(lens map[Addr]int) int {
	sum := 0
	for addr := range lens {
		sum += lens[addr]
	}
	return sum / len(lens)
}
'''))
good("Z6-et-lb-local-var", (ET, '''				for other, otherLen := range addrsLens {
					// For clarity; data flow goes only from other nodes to local node.
					if local.Comp(other) || addrsLens[local] > dpMean {
						continue
					}

					// No point in getting any data if local is above average.
					if addrsLens[local] > dpMean-margin {
						continue
					}
''', '''				for other, otherLen := range addrsLens {
					if local.Comp(other) {
						continue
					}
					// No point in getting any data if local is above average.
					have := addrsLens[local]
					if have > dpMean || have > dpMean-margin {
						continue
					}
'''))
good("Z6-et-meta-addrs", (ET, '''		pullFrom := make([]Addr, 0, len(cfg.RemoteAddrs))

		if cfg.LogLocalOnly {
			pullFrom = append(pullFrom, cfg.LocalAddr)
		} else {
			pullFrom = append(pullFrom, cfg.RemoteAddrs...)
		}
''', '''		pullFrom := cfg.RemoteAddrs
		if cfg.LogLocalOnly {
			pullFrom = []Addr{cfg.LocalAddr}
		}
'''))
good("Z6-eu-set", (EU, '''	slice, ok := t.items[namespace]
	if !ok {
		slice = make([]Addr, 0, 5)
	}

	slice = append(slice, addr)
	t.items[namespace] = slice
''', '''	t.items[namespace] = append(t.items[namespace], addr)
'''))
good("Z6-eu-lens-struct", (EU, '''			lenDP := client.LenDP()
''', '''			res := nodeDPLen{addr: addr, DPLen: client.LenDP()}
'''), (EU, '''			_, castOK := err.(netrpc.ServerError)
			ok := err == nil || castOK
			ch <- nodeDPLen{addr, lenDP, ok}
''', '''			switch err.(type) {
			case nil, netrpc.ServerError:
				res.ok = true
			}
			ch <- res
'''))
good("Z6-ec-clamp-fn", (EC, '''	for _, v := range items {
		if *v < min {
			*v = min
		}
		if *v > max {
			*v = max
		}
	}
''', '''	limit := func(v int) int {
		switch {
		case v < min:
			return min
		case v > max:
			return max
		}
		return v
	}
	for _, v := range items {
		*v = limit(*v)
	}
'''))
good("Z6-el-tick", (EL, '''			cfg.internal.iter++
			if cfg.internal.iter > 1000 {
				cfg.internal.iter = 0
			}
''', '''			if cfg.internal.iter++; cfg.internal.iter == 1001 {
				cfg.internal.iter = 0
			}
'''))
good("Z6-ha-put-or", (HA, '''	if !putOk {
		putOk = dps.PutDataPointRand(args)
	}

	// reply.
	switch putOk {
	case true:
		w.WriteHeader(http.StatusOK)
	case false:
		w.WriteHeader(http.StatusInternalServerError)
	}''', '''	status := http.StatusInternalServerError
	if putOk || dps.PutDataPointRand(args) {
		status = http.StatusOK
	}
	w.WriteHeader(status)'''))
good("Z6-ha-func-var", (HA, '''	var resp []common.DataPoint
	switch opts.Accurate {
	case true:
		resp = dps.GetDataPointsAccurate(args)
	case false:
		resp = dps.GetDataPointsFast(args)
	}
''', '''	find := dps.GetDataPointsFast
	if opts.Accurate {
		find = dps.GetDataPointsAccurate
	}
	var resp []common.DataPoint = find(args)
'''))
good("Z6-ha-named-opts", (HA, '''	opts := struct {
		Namespace string    `json:"namespace"`
		Accurate  bool      `json:"accurate"`
		QueryVec  []float64 `json:"queryVec"`
		N         int       `json:"n"`
		Drain     bool      `json:"drain"`
	}{}
''', '''	var opts queryOptions
'''), (HA, "", '''
type target struct {
	Namespace string `json:"namespace"`
	Accurate  bool   `json:"accurate"`
}

type queryOptions struct {
	target
	QueryVec []float64 `json:"queryVec"`
	N        int       `json:"n"`
	Drain    bool      `json:"drain"`
}
'''))
good("Z6-ap-check", (AP, '''	h := handler{RPCAddrs: cfg.RPCAddrs}
	h.setRoutes()
''', '''	(&handler{RPCAddrs: cfg.RPCAddrs}).setRoutes()
'''))
good("Z6-kn-slots", (KNN, '''		newSlot := &resultItem{i, score, true}
''', '''		newSlot := new(resultItem)
		newSlot.index, newSlot.score, newSlot.set = i, score, true
'''))
good("Z6-kn-value-slot", (KNN, '''		newSlot := &resultItem{i, score, true}
''', '''		slot := resultItem{index: i, score: score, set: true}
		newSlot := &slot
'''))
good("Z6-di-sub", (DI, '''	for i := 0; i < len(v1); i++ {
		r += (v1[i] - v2[i]) * (v1[i] - v2[i])
	}
''', '''	for i := range v1 {
		d := v1[i] - v2[i]
		r += d * d
	}
'''))
good("Z6-di-norm-prod", (DI, '''	norm1, norm2 := norm(vec1), norm(vec2)
	if norm1 == 0 || norm2 == 0 {
		return 0, nil
	}
	var dot float64
''', '''	norm1 := norm(vec1)
	if norm1 == 0 {
		return 0, nil
	}
	norm2 := norm(vec2)
	if norm2 == 0 {
		return 0, nil
	}
	dot := 0.0
'''))
good("Z6-ma-defer", (MA, '''	eltStop := eventloop.EventLoop(&cfg.ELT)
	defer eltStop()
''', '''	stopLoop := eventloop.EventLoop(&cfg.ELT)
	defer func() {
		stopLoop()
	}()
'''))
good("Z6-ma-spawner", (MA, '''	cmSpawner := func(vec []float64) *centroidmanager.CentroidManager {
		args := centroidmanager.NewCentroidManagerArgs{
			InitVec:             vec,
			InitCap:             cfg.KMEANS_INITCAP,
			CentroidDPThreshold: cfg.KMEANS_CENTROID_DP_THRESHOLD,
			KNNSearchFunc:       cfg.KNN_SEARCH_FUNC,
			KFNSearchFunc:       cfg.KFN_SEARCH_FUNC,
		}
		cm, ok := centroidmanager.NewCentroidManager(args)
		if !ok {
			panic("cmSpawner failed to spawn.")
		}
		return &cm
	}
''', '''	cmSpawner := spawn
'''), (MA, "", '''
func spawn(vec []float64) *centroidmanager.CentroidManager {
	args := centroidmanager.NewCentroidManagerArgs{
		CentroidDPThreshold: cfg.KMEANS_CENTROID_DP_THRESHOLD,
		InitCap:             cfg.KMEANS_INITCAP,
	}
	args.InitVec = vec
	args.KNNSearchFunc, args.KFNSearchFunc = cfg.KNN_SEARCH_FUNC, cfg.KFN_SEARCH_FUNC
	if cm, ok := centroidmanager.NewCentroidManager(args); ok {
		return &cm
	}
	panic("spawn failed")
}
'''))
