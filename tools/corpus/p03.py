R = "pkg/kmeans/rpc/rpc.go"
S = "pkg/kmeans/rpc/server.go"
C = "pkg/kmeans/centroid/centroid.go"
M = "pkg/kmeans/centroidmanager/cmanager.go"
EL = "core/eventloop/el.go"
EC = "core/eventloop/cfg.go"
EU = "core/eventloop/eltaskutils.go"
ET = "core/eventloop/eltask.go"
NV = "core/nodes/vecs.go"
H = "core/api/handler.go"

bad("P03-slot-unlocked", "P03", (R, "	slot.Access(f)\n	return true", "	f(slot.cManager)\n	return true"))
bad("P03-access-nolock", "P03", (R, "	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)", "	f(s.cManager)"))
bad("P03-access-early", "P03", (R, "	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)", "	s.Lock()\n	cm := s.cManager\n	s.Unlock()\n\n	f(cm)"))
bad("P03-lookup-nolock", "P03", (R, "	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()\n", "	slot, ok := t.slots[namespace]\n"))
bad("P03-lookup-late", "P03", (R, "	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()\n", "	t.Lock()\n	slots := t.slots\n	t.Unlock()\n	slot, ok := slots[namespace]\n"))
bad("P03-meta-nolock", "P03", (S, "	s.Table.Lock()\n	namespaces := make([]string, 0, len(s.Table.slots))", "	namespaces := make([]string, 0, len(s.Table.slots))"), (S, "		namespaces = append(namespaces, key)\n	}\n	s.Table.Unlock()\n", "		namespaces = append(namespaces, key)\n	}\n"))
bad("P03-names-snapshot", "P03", (S, "	s.Table.Lock()\n	defer s.Table.Unlock()\n\n	r := make([]string, 0, len(s.Table.slots))\n	for key := range s.Table.slots {", "	s.Table.Lock()\n	slots := s.Table.slots\n	s.Table.Unlock()\n\n	r := make([]string, 0, len(slots))\n	for key := range slots {"))
bad("P03-live-reply", "P03", (S, "		if args.Drain {\n			*r = centroids\n			return\n		}\n", "		if args.Drain || args.N == 1 {\n			*r = centroids\n			return\n		}\n"))
bad("P03-live-reply2", "P03", (S, "			dps := make([]DataPoint, len(c.DataPoints))\n			copy(dps, c.DataPoints)\n			*r = append(*r, &Centroid{DataPoints: dps})", "			*r = append(*r, &Centroid{DataPoints: c.DataPoints})"))
bad("P03-live-reply3", "P03", (S, "			dps := make([]DataPoint, len(c.DataPoints))\n			copy(dps, c.DataPoints)\n			*r = append(*r, &Centroid{DataPoints: dps})", "			dps := append(c.DataPoints[:0:0], c.DataPoints...)\n			cp := *c\n			if len(dps) != 0 {\n				cp.DataPoints = dps\n			}\n			*r = append(*r, &cp)\n			*r = append((*r)[:len(*r)-1], c)"))
bad("P03-live-reply4", "P03", (S, "			dps := make([]DataPoint, len(c.DataPoints))\n			copy(dps, c.DataPoints)\n", "			dps := c.DataPoints[:len(c.DataPoints):len(c.DataPoints)]\n"))
bad("P03-steal-len-late", "P03", (S, "			cm.Centroids = append(cm.Centroids, centroids...)\n			r.TransferredN += centroids[0].LenDP()\n		})", "			cm.Centroids = append(cm.Centroids, centroids...)\n		})\n		r.TransferredN += centroids[0].LenDP()"))
bad("P03-steal-new-used", "P03", (S, "		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})\n	}", "		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})\n		cm.MoveVector()\n	}"))
bad("P03-add-published", "P03", (S, "		if !centroidManager.AddDataPoint(args.DP) {\n			return nil\n		}\n		slot", "		slot"), (S, "		if s.Table.AddSlot(args.NameSpace, &slot) {\n			*resp = true\n			return nil", "		if s.Table.AddSlot(args.NameSpace, &slot) {\n			*resp = centroidManager.AddDataPoint(args.DP)\n			return nil"))
bad("P03-leak-cm", "P03", (S, "	var localVec []float64\n	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		localVec = cm.Vec()\n	})", "	var localVec []float64\n	var local *CentroidManager\n	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		local = cm\n	})\n	if local != nil {\n		localVec = local.Vec()\n	}"))
bad("P03-go-in-access", "P03", (S, "		cm.Expire()\n", "		go cm.Expire()\n"))
bad("P03-go-in-access2", "P03", (S, "		cm.MemTrim()\n", "		go func() { cm.MemTrim() }()\n"))
bad("P03-plain-stop", "P03", (EC, "	return atomic.LoadInt32(&i.stopped) != 0", "	return i.stopped != 0"), (EC, '	"sync/atomic"\n', ''))
bad("P03-plain-stop2", "P03", (EL, "		atomic.StoreInt32(&cfg.internal.stopped, 1)", "		cfg.internal.stopped = 1"), (EL, '	"sync/atomic"\n', ''))
bad("P03-plain-stop3", "P03", (EL, "		atomic.StoreInt32(&cfg.internal.stopped, 1)", "		cfg.internal.stopped = 1"), (EL, '	"sync/atomic"\n', ''), (EC, "	return atomic.LoadInt32(&i.stopped) != 0", "	return i.stopped != 0"), (EC, '	"sync/atomic"\n', ''))
bad("P03-stop-resets", "P03", (EL, "		atomic.StoreInt32(&cfg.internal.stopped, 1)", "		atomic.StoreInt32(&cfg.internal.stopped, 1)\n		cfg.internal.iter = 0"))
bad("P03-stop-struct", "P03", (EL, "		atomic.StoreInt32(&cfg.internal.stopped, 1)", "		atomic.StoreInt32(&cfg.internal.stopped, 1)\n		cfg.internal = eventLoopInternal{stopped: 1}"))
bad("P03-listen-stopped", "P03", (R, "		ln.Close()\n		mu.Lock()\n		defer mu.Unlock()\n		stopped = true\n", "		ln.Close()\n		stopped = true\n		mu.Lock()\n		defer mu.Unlock()\n"))
bad("P03-listen-check", "P03", (R, "		mu.Lock()\n		if stopped {\n			mu.Unlock()\n			return\n		}\n		conns[cxn] = true", "		if stopped {\n			return\n		}\n		mu.Lock()\n		conns[cxn] = true"))
bad("P03-listen-delete", "P03", (R, "		mu.Lock()\n		delete(conns, cxn)\n		mu.Unlock()\n", "		delete(conns, cxn)\n"))
bad("P03-listen-iter", "P03", (R, "		stopped = true\n		for conn := range conns {\n			conn.Close()\n		}\n", "		stopped = true\n		cs := conns\n		mu.Unlock()\n		for conn := range cs {\n			conn.Close()\n		}\n		mu.Lock()\n"))
bad("P03-listen-two-locks", "P03", (R, "	var mu sync.Mutex // Guards the two vars below.", "	var mu, mu2 sync.Mutex"), (R, "		mu.Lock()\n		delete(conns, cxn)\n		mu.Unlock()\n", "		mu2.Lock()\n		delete(conns, cxn)\n		mu2.Unlock()\n"))
bad("P03-listen-own-lock", "P03", (R, "		handler.ServeConn(cxn)\n\n		mu.Lock()", "		handler.ServeConn(cxn)\n\n		var mu sync.Mutex\n		mu.Lock()"))
bad("P03-fan-shared", "P03", (NV, "	for _, addr := range addrs {\n		go func(addr Addr) {\n			vec, ok := fetchFunc(addr)\n", "	var vec []float64\n	var ok bool\n	for _, addr := range addrs {\n		go func(addr Addr) {\n			vec, ok = fetchFunc(addr)\n"))
bad("P03-fan-err", "P03", (NV, "	return fetchVecs(addrs, func(addr Addr) ([]float64, bool) {\n		var err error\n		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()", "	var err error\n	return fetchVecs(addrs, func(addr Addr) ([]float64, bool) {\n		vec := rpc.KMeansClient(addr.ToStr(), namespace, &err).Vec()"))
bad("P03-fan-loopvar", "P03", (NV, "		go func(addr Addr) {\n			vec, ok := fetchFunc(addr)\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n		}(addr)", "		go func() {\n			vec, ok := fetchFunc(addr)\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n		}()"))
bad("P03-fan-map", "P03", (EU, "			ok := err == nil || castOK\n", "			ok := err == nil || castOK\n			if ok {\n				got[addr] = lenDP\n			}\n"), (EU, "	ch := make(chan nodeDPLen, len(addrs))\n", "	ch := make(chan nodeDPLen, len(addrs))\n	got := make(map[Addr]int)\n"))
bad("P03-fan-append", "P03", (EU, "			ok := err == nil || castOK\n", "			ok := err == nil || castOK\n			got = append(got, lenDP)\n"), (EU, "	ch := make(chan nodeDPLen, len(addrs))\n", "	ch := make(chan nodeDPLen, len(addrs))\n	var got []int\n"))
bad("P03-fan-uncollected", "P03", (NV, "	return &fetchVecsChan{ch: ch, chlen: len(addrs)}", "	if len(addrs) != 0 {\n		addrs[0] = addrs[len(addrs)-1]\n	}\n	return &fetchVecsChan{ch: ch, chlen: len(addrs)}"), (NV, "		go func(addr Addr) {\n			vec, ok := fetchFunc(addr)", "		go func(addr Addr) {\n			addr = addrs[0]\n			vec, ok := fetchFunc(addr)"))
bad("P03-global-cache", "P03", (S, "// Namespaces sends all", "var vecCache = map[string][]float64{}\n\n// Namespaces sends all"), (S, "		*resp = cm.Vec()\n", "		*resp = cm.Vec()\n		vecCache[namespace] = *resp\n"))
bad("P03-global-count", "P03", (S, "// Namespaces sends all", "var calls int\n\n// Namespaces sends all"), (S, "		*resp = cm.Vec()\n", "		*resp = cm.Vec()\n		calls++\n"))
bad("P03-server-count", "P03", (R, "	// Address associated with this server.\n	addr string", "	// Address associated with this server.\n	addr string\n	n    int"), (S, "		*resp = cm.Vec()\n", "		*resp = cm.Vec()\n		s.n++\n"))
bad("P03-handler-count", "P03", (H, "type handler struct {\n", "type handler struct {\n	n int\n"), (H, "	putOk := false\n", "	h.n++\n	putOk := false\n"))
bad("P03-handler-rotate", "P03", (H, "	putOk := false\n", "	if len(h.RPCAddrs) > 1 {\n		h.RPCAddrs[0], h.RPCAddrs[1] = h.RPCAddrs[1], h.RPCAddrs[0]\n	}\n	putOk := false\n"))
bad("P03-table-out", "P03", (R, "// Namespaces returns all namespaces", "// Slots gives the table.\nfunc (t *CManagerTable) Slots() map[string]*CManagerSlot {\n	t.Lock()\n	defer t.Unlock()\n	return t.slots\n}\n\n// Namespaces returns all namespaces"))
bad("P03-manager-out", "P03", (R, "// Namespaces returns all namespaces", "// Get gives a manager.\nfunc (t *CManagerTable) Get(ns string) *CentroidManager {\n	t.Lock()\n	defer t.Unlock()\n	if s, ok := t.slots[ns]; ok {\n		s.Lock()\n		defer s.Unlock()\n		return s.cManager\n	}\n	return nil\n}\n\n// Namespaces returns all namespaces"))
bad("P03-addslot-unlocked", "P03 P04", (R, "	t.Lock()\n	defer t.Unlock()\n	// Replacing", "	// Replacing"))
bad("P03-rw-write", "P03", (R, "	cManager *CentroidManager\n	sync.Mutex", "	cManager *CentroidManager\n	sync.RWMutex"), (R, "	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)", "	s.RLock()\n	defer s.RUnlock()\n\n	f(s.cManager)"))
bad("P03-local-mutex", "P03", (R, "	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)", "	var mu sync.Mutex\n	mu.Lock()\n	defer mu.Unlock()\n\n	f(s.cManager)"))
bad("P03-table-lock-only", "P03", (R, "	slot, ok := t.slots[namespace]\n	t.Unlock()\n\n	if !ok {\n		return false\n	}\n	slot.Access(f)", "	slot, ok := t.slots[namespace]\n	defer t.Unlock()\n\n	if !ok {\n		return false\n	}\n	f(slot.cManager)"))
bad("P03-drain-alias", "P03", (C, "	res := make([]common.DataPoint, 0)\n	for len(c.DataPoints) != 0 && len(res) < n {", "	res := c.DataPoints[:0]\n	for len(c.DataPoints) != 0 && len(res) < n {"))
bad("P03-lookup-kept", "P03", (C, "	if drain {\n		// Sorting", "	c.last = res\n	if drain {\n		// Sorting"), (C, "type Centroid struct {\n", "type Centroid struct {\n	last []common.DataPoint\n"))
bad("P03-nearest-alias", "P03", (M, "	centroids := make([]*centroid.Centroid, 0, len(indexes))\n	for _, index", "	centroids := cm.Centroids[:0]\n	for _, index"))
bad("P03-distri-late", "P03", (S, "	dps := make([]DataPoint, 0)\n\n	// Not wrapping the code below with this because it locks the CentroidManager.\n	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		// Nothing would take care of drained dps without any receivers.\n		if len(args.AddrOptions) != 0 {\n			dps = append(dps, cm.DrainOrdered(args.N)...)\n		}\n	})\n\n	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {\n		return nsErr\n	}\n\n	for _, dp := range dps {\n		// Fetch", "	dps := make([]DataPoint, 0)\n	var self *CentroidManager\n\n	nsErr := s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		self = cm\n		if len(args.AddrOptions) != 0 {\n			dps = append(dps, cm.DrainOrdered(args.N)...)\n		}\n	})\n\n	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {\n		return nsErr\n	}\n	self.MoveVector()\n\n	for _, dp := range dps {\n		// Fetch"))

good("P03-g-explicit-unlock", (R, "	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)", "	s.Lock()\n	f(s.cManager)\n	s.Unlock()"))
good("P03-g-lookup-helper", (R, "	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()\n", "	slot, ok := t.find(namespace)\n"), (R, "// AddSlot safely (mutex)", "func (t *CManagerTable) find(namespace string) (*CManagerSlot, bool) {\n	t.Lock()\n	defer t.Unlock()\n	slot, ok := t.slots[namespace]\n	return slot, ok\n}\n\n// AddSlot safely (mutex)"))
good("P03-g-rw-table", (R, "	slots map[string]*CManagerSlot\n	sync.Mutex", "	slots map[string]*CManagerSlot\n	sync.RWMutex"), (R, "	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()\n", "	t.RLock()\n	slot, ok := t.slots[namespace]\n	t.RUnlock()\n"))
good("P03-g-rw-len", (R, "	slots map[string]*CManagerSlot\n	sync.Mutex", "	slots map[string]*CManagerSlot\n	sync.RWMutex"), (S, "	s.Table.Lock()\n	defer s.Table.Unlock()\n", "	s.Table.RLock()\n	defer s.Table.RUnlock()\n"))
good("P03-g-meta-names", (S, "	s.Table.Lock()\n	namespaces := make([]string, 0, len(s.Table.slots))\n	for key := range s.Table.slots {\n		namespaces = append(namespaces, key)\n	}\n	s.Table.Unlock()\n", "	namespaces := s.Table.Namespaces()\n"))
good("P03-g-names-endpoint", (S, "	s.Table.Lock()\n	defer s.Table.Unlock()\n\n	r := make([]string, 0, len(s.Table.slots))\n	for key := range s.Table.slots {\n		r = append(r, key)\n	}\n	*resp = r\n", "	*resp = s.Table.Namespaces()\n"))
good("P03-g-copy-append", (S, "			dps := make([]DataPoint, len(c.DataPoints))\n			copy(dps, c.DataPoints)\n			*r = append(*r, &Centroid{DataPoints: dps})", "			dps := append([]DataPoint(nil), c.DataPoints...)\n			*r = append(*r, &Centroid{DataPoints: dps})"))
good("P03-g-copy-helper", (S, "			dps := make([]DataPoint, len(c.DataPoints))\n			copy(dps, c.DataPoints)\n			*r = append(*r, &Centroid{DataPoints: dps})", "			*r = append(*r, copyOf(c))"), (S, "type NearestCentroidVecArgs struct", "func copyOf(c *Centroid) *Centroid {\n	dps := make([]DataPoint, len(c.DataPoints))\n	copy(dps, c.DataPoints)\n	return &Centroid{DataPoints: dps}\n}\n\ntype NearestCentroidVecArgs struct"))
good("P03-g-steal-count-first", (S, "			cm.Centroids = append(cm.Centroids, centroids...)\n			r.TransferredN += centroids[0].LenDP()\n", "			n := centroids[0].LenDP()\n			cm.Centroids = append(cm.Centroids, centroids...)\n			r.TransferredN += n\n"))
good("P03-g-atomic-count", (R, "	// Address associated with this server.\n	addr string", "	// Address associated with this server.\n	addr string\n	n    int64"), (S, "		*resp = cm.Vec()\n", "		*resp = cm.Vec()\n		atomic.AddInt64(&s.n, 1)\n"), (S, 'import (\n', 'import (\n	"sync/atomic"\n'))
good("P03-g-locked-count", (R, "	// Address associated with this server.\n	addr string", "	// Address associated with this server.\n	addr string\n	mu   sync.Mutex\n	n    int"), (S, "		*resp = cm.Vec()\n	})", "		*resp = cm.Vec()\n	})"), (S, "	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {\n		cm.Expire()", "	s.mu.Lock()\n	s.n++\n	s.mu.Unlock()\n	return s.handleNamespaceErr(namespace, func(cm *CentroidManager) {\n		cm.Expire()"))
good("P03-g-stop-order", (R, "		ln.Close()\n		mu.Lock()\n		defer mu.Unlock()\n		stopped = true\n		for conn := range conns {\n			conn.Close()\n		}\n", "		mu.Lock()\n		stopped = true\n		for conn := range conns {\n			conn.Close()\n		}\n		mu.Unlock()\n		ln.Close()\n"))
good("P03-g-listen-helper", (R, "		mu.Lock()\n		delete(conns, cxn)\n		mu.Unlock()\n", "		forget(cxn)\n"), (R, "	serve := func(cxn net.Conn) {\n", "	forget := func(cxn net.Conn) {\n		mu.Lock()\n		defer mu.Unlock()\n		delete(conns, cxn)\n	}\n\n	serve := func(cxn net.Conn) {\n"))
good("P03-g-fan-inner", (NV, "		go func(addr Addr) {\n			vec, ok := fetchFunc(addr)\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n		}(addr)", "		addr := addr\n		go func() {\n			var res fetchVecsRes\n			res.addr = addr\n			res.vec, res.ok = fetchFunc(addr)\n			ch <- res\n		}()"))
good("P03-g-named-mutex", (R, "	cManager *CentroidManager\n	sync.Mutex", "	cManager *CentroidManager\n	mu       sync.Mutex"), (R, "	s.Lock()\n	defer s.Unlock()\n\n	f(s.cManager)", "	s.mu.Lock()\n	defer s.mu.Unlock()\n\n	f(s.cManager)"))
good("P03-g-add-local", (S, "		*resp = cm.AddDataPoint(args.DP)\n", "		added := cm.AddDataPoint(args.DP)\n		*resp = added\n"))
good("P03-g-swap", (EL, "		atomic.StoreInt32(&cfg.internal.stopped, 1)", "		atomic.SwapInt32(&cfg.internal.stopped, 1)"))
