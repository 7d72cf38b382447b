M = "cmd/service/service.go"
CFG = "cfg/cfg.go"
CM = "pkg/kmeans/centroidmanager/cmanager.go"
CE = "pkg/kmeans/centroid/centroid.go"
API = "core/api/api.go"
R = "pkg/kmeans/rpc/rpc.go"

def b(n, *e): bad("P31-" + n, "P31", *e)
def g(n, *e): good("P31-" + n, *e)

b("swap", (M, "KFNSearchFunc:       cfg.KFN_SEARCH_FUNC", "KFNSearchFunc:       cfg.KNN_SEARCH_FUNC"))
b("thr-cap", (M, "InitCap:             cfg.KMEANS_INITCAP", "InitCap:             cfg.KMEANS_CENTROID_DP_THRESHOLD"))
b("thr-none", (M, "			CentroidDPThreshold: cfg.KMEANS_CENTROID_DP_THRESHOLD,\n", ""))
b("api-addr", (M, "cfg.LocalAddrAPI", "cfg.LocalAddrRPC"))
b("node-addr", (M, "cfg.LocalAddrRPC.ToStr()", "cfg.LocalAddrAPI.ToStr()"))
b("node-other", (M, "cfg.LocalAddrRPC.ToStr()", "cfg.OtherAddrRPC[0].ToStr()"))
b("api-local", (M, "RPCAddrs:     cfg.OtherAddrRPC", "RPCAddrs:     []cfg.Addr{cfg.LocalAddrRPC}"))
b("api-first", (M, "RPCAddrs:     cfg.OtherAddrRPC", "RPCAddrs:     cfg.OtherAddrRPC[1:]"))
b("err", (M, "	rpcStop, err := rpc.StartListen(rpcNode)\n	if err != nil {\n		panic(\"failed to start rpc node\")\n	}\n", "	rpcStop, err := rpc.StartListen(rpcNode)\n"))
b("err-print", (M, "		panic(\"failed to start rpc node\")\n", "		println(\"failed to start rpc node\")\n"))
b("stop-early", (M, "	defer rpcStop()\n", "	rpcStop()\n"))
b("stop-elt", (M, "	defer eltStop()\n", "	eltStop()\n"))
b("elt-copy", (M, "eventloop.EventLoop(&cfg.ELT)", "eventloop.EventLoop(&eventloop.EventLoopConfig{LocalAddr: cfg.LocalAddrAPI, RemoteAddrs: cfg.OtherAddrRPC})"))
b("elt-after", (M, "	eltStop := eventloop.EventLoop(&cfg.ELT)\n	defer eltStop()\n", ""), (M, "		panic(err)\n	}\n}", "		panic(err)\n	}\n	defer eventloop.EventLoop(&cfg.ELT)()\n}"))
b("factory-ok", (M, "			panic(\"cmSpawner failed to spawn.\")\n", "			return nil\n"))
b("factory-vec", (M, "			InitVec:             vec,\n", "			InitVec:             vec[:0],\n"))
b("cfg-euc", (CFG, "KFN_SEARCH_FUNC = searchutils.KFNCos", "KFN_SEARCH_FUNC = searchutils.KFNEuc"))
b("cfg-dir", (CFG, "KNN_SEARCH_FUNC = searchutils.KNNCos", "KNN_SEARCH_FUNC = searchutils.KFNCos"))
b("cfg-local", (CFG, "	LocalAddr: LocalAddrRPC,", "	LocalAddr: LocalAddrAPI,"))
b("cfg-net", (CFG, "	RemoteAddrs: OtherAddrRPC,", "	RemoteAddrs: nil,"))
b("cfg-others", (CFG, "var OtherAddrRPC = []Addr{\n	LocalAddrRPC,\n}", "var OtherAddrRPC = []Addr{\n	LocalAddrAPI,\n}"))
b("cfg-port", (CFG, '"3501"', '"3500"'))
b("cfg-range", (CFG, "SplitCentroidsMin: 1000,", "SplitCentroidsMin: 1000000,"))
b("make-nil", (CM, "if args.KNNSearchFunc == nil || args.KFNSearchFunc == nil {", "if args.KNNSearchFunc == nil && args.KFNSearchFunc == nil {"))
b("make-nil-c", (CE, "if args.KNNSearchFunc == nil || args.KFNSearchFunc == nil {", "if args.KNNSearchFunc == nil {"))
b("make-thr", (CM, "centroidDPThreshold: args.CentroidDPThreshold,", "centroidDPThreshold: args.InitCap,"))
b("make-thr2", (CM, "		centroidDPThreshold: args.CentroidDPThreshold,\n", "		centroidDPThreshold: args.CentroidDPThreshold * 2,\n"))
b("make-strict", (CM, "if args.KNNSearchFunc == nil || args.KFNSearchFunc == nil {", "if args.KNNSearchFunc == nil || args.KFNSearchFunc == nil || args.InitCap < 1 {"))
b("hand-swap", (CM, "		KNNSearchFunc: cm.knnSearchFunc,\n		KFNSearchFunc: cm.kfnSearchFunc,", "		KNNSearchFunc: cm.kfnSearchFunc,\n		KFNSearchFunc: cm.knnSearchFunc,"))
b("hand-cap", (CM, "InitCap:       cm.initCap,", "InitCap:       cm.centroidDPThreshold,"))
b("thr-late", (CM, "if centroid.LenDP() >= cm.centroidDPThreshold {", "if centroid.LenDP() >= 2*cm.centroidDPThreshold {"))
b("thr-cms", (CM, "if centroid.LenDP() >= cm.centroidDPThreshold {", "if len(cm.Centroids) >= cm.centroidDPThreshold {"))
b("thr-flip", (CM, "if centroid.LenDP() >= cm.centroidDPThreshold {", "if centroid.LenDP() < cm.centroidDPThreshold {"))
b("thr-all", (CM, "cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)", "cm.splitCentroid(indexes[0], cm.centroidDPThreshold)"))
b("thr-once", (CM, "if centroid.LenDP() >= cm.centroidDPThreshold {", "if centroid.LenDP() >= cm.centroidDPThreshold && len(cm.Centroids) < 2 {"))
b("thr-changed", (CM, "			cm.Centroids = append(cm.Centroids, newCentroid)\n			cm.syncVec()\n		}", "			cm.Centroids = append(cm.Centroids, newCentroid)\n			cm.centroidDPThreshold++\n			cm.syncVec()\n		}"))
b("api-timeouts", (API, "ReadTimeout:  cfg.ReadTimeout,", "ReadTimeout:  cfg.WriteTimeout,"))
b("api-nilnet", (API, "	if cfg.RPCAddrs == nil {", "	if cfg.RPCAddrs == nil && cfg.ReadTimeout == 0 {"))
b("api-some", (API, "handler{RPCAddrs: cfg.RPCAddrs}", "handler{RPCAddrs: cfg.RPCAddrs[:1]}"))
b("api-own", (API, "handler{RPCAddrs: cfg.RPCAddrs}", "handler{RPCAddrs: append(cfg.RPCAddrs, cfg.Addr)}"))
b("api-quiet", (API, "	return s.ListenAndServe()", "	s.ListenAndServe()\n	return nil"))
b("api-rpcaddr", (API, "Addr:         cfg.Addr.ToStr(),", "Addr:         cfg.RPCAddrs[0].ToStr(),"))
b("api-port", (API, "Addr:         cfg.Addr.ToStr(),", "Addr:         \":\" + cfg.Addr.Port,"))
b("rpc-any", (R, 'net.Listen("tcp", s.addr)', 'net.Listen("tcp", ":0")'))
b("rpc-udp", (R, 'net.Listen("tcp", s.addr)', 'net.Listen("tcp6", s.addr)'))
b("rpc-notable", (R, "	table := CManagerTable{slots: slots}\n", "	_ = slots\n	table := CManagerTable{}\n"))
b("rpc-other", (R, "	handler.Register(s)\n", "	handler.Register(NewKMeansServer(s.addr, s.CentroidManagerFactoryFunc))\n"))
b("rpc-none", (R, "	handler.Register(s)\n", ""))
b("rpc-default", (R, "	handler.Register(s)\n", "	rpc.Register(s)\n"))

g("spawner", (M, "FUNC func main() {", '''
func spawn(vec []float64) *centroidmanager.CentroidManager {
	var args centroidmanager.NewCentroidManagerArgs
	args.KFNSearchFunc = cfg.KFN_SEARCH_FUNC
	args.KNNSearchFunc = cfg.KNN_SEARCH_FUNC
	args.CentroidDPThreshold = cfg.KMEANS_CENTROID_DP_THRESHOLD
	args.InitCap = cfg.KMEANS_INITCAP
	args.InitVec = vec
	cm, ok := centroidmanager.NewCentroidManager(args)
	if ok {
		return &cm
	}
	panic("cmSpawner failed to spawn.")
}

func startNode() func() {
	addr := cfg.LocalAddrRPC
	stop, err := rpc.StartListen(rpc.NewKMeansServer(addr.ToStr(), spawn))
	if err != nil {
		panic("failed to start rpc node")
	}
	return stop
}

func main() {
	stopLoop := eventloop.EventLoop(&cfg.ELT)
	stopNode := startNode()
	defer func() {
		stopLoop()
		stopNode()
	}()

	c := api.APIConfig{Addr: cfg.LocalAddrAPI, RPCAddrs: cfg.OtherAddrRPC}
	c.ReadTimeout = time.Second * 5
	c.WriteTimeout = c.ReadTimeout
	if err := api.Start(c); err != nil {
		panic(err)
	}
}
'''))
g("log", (M, '		panic("failed to start rpc node")\n', '		log.Fatalf("failed to start rpc node: %v", err)\n'), (M, '	"time"\n', '	"log"\n	"time"\n'))
g("cfg-three", (CFG, "var OtherAddrRPC = []Addr{\n	LocalAddrRPC,\n}", 'var OtherAddrRPC = []Addr{\n	Addr{"localhost", "3510"},\n	LocalAddrRPC,\n}'))
g("cfg-values", (CFG, "SplitCentroidsMin: 1000,", "SplitCentroidsMin: 1500,"), (CFG, "KMEANS_INITCAP = 100\n", "KMEANS_INITCAP = 64\n"))
g("make-late", (CM, "		initCap:             args.InitCap,\n", ""), (CM, "	for i, v := range args.InitVec {\n		cm.vec[i] = v\n	}\n	return cm, true", "	copy(cm.vec, args.InitVec)\n	cm.initCap = args.InitCap\n	return cm, true"))
g("make-ifs", (CM, "	if args.KNNSearchFunc == nil || args.KFNSearchFunc == nil {\n		return CentroidManager{}, false\n	}\n", "	if args.KNNSearchFunc == nil {\n		return CentroidManager{}, false\n	}\n	if args.KFNSearchFunc == nil {\n		return CentroidManager{}, false\n	}\n"))
g("make-inv", (CE, "	if args.KNNSearchFunc == nil || args.KFNSearchFunc == nil {\n		return Centroid{}, false\n	}\n", "	complete := args.KNNSearchFunc != nil && args.KFNSearchFunc != nil\n	if !complete {\n		return Centroid{}, false\n	}\n"))
g("thr-early", (CM, "	if centroid.LenDP() >= cm.centroidDPThreshold {\n		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)\n		if splitOK {\n			cm.Centroids = append(cm.Centroids, newCentroid)\n			cm.syncVec()\n		}\n	}\n	return true", "	limit := cm.centroidDPThreshold\n	if limit > centroid.LenDP() {\n		return true\n	}\n	half, split := cm.splitCentroid(indexes[0], limit/2)\n	if !split {\n		return true\n	}\n	cm.Centroids = append(cm.Centroids, half)\n	cm.syncVec()\n	return true"))
g("thr-off", (CM, "	if centroid.LenDP() >= cm.centroidDPThreshold {\n", "	if cm.centroidDPThreshold > 0 && centroid.LenDP() >= cm.centroidDPThreshold {\n"))
g("thr-method", (CM, "	if centroid.LenDP() >= cm.centroidDPThreshold {\n		newCentroid, splitOK := cm.splitCentroid(indexes[0], cm.centroidDPThreshold/2)\n		if splitOK {\n			cm.Centroids = append(cm.Centroids, newCentroid)\n			cm.syncVec()\n		}\n	}\n	return true\n}\n", "	cm.splitIfBig(centroid, indexes[0])\n	return true\n}\n\nfunc (cm *CentroidManager) splitIfBig(c *centroid.Centroid, i int) {\n	if c.LenDP() < cm.centroidDPThreshold {\n		return\n	}\n	if n, ok := cm.splitCentroid(i, cm.centroidDPThreshold/2); ok {\n		cm.Centroids = append(cm.Centroids, n)\n		cm.syncVec()\n	}\n}\n"))
g("api-inline", (API, "	if err := cfg.check(); err != nil {\n		return err\n	}\n\n	h := handler{RPCAddrs: cfg.RPCAddrs}\n	h.setRoutes()\n", "	err := cfg.check()\n	if err == nil {\n		h := handler{}\n		h.RPCAddrs = cfg.RPCAddrs\n		h.setRoutes()\n	} else {\n		return err\n	}\n"))
g("api-server", (API, "	s := http.Server{\n		Addr:         cfg.Addr.ToStr(),\n		ReadTimeout:  cfg.ReadTimeout,\n		WriteTimeout: cfg.WriteTimeout,\n	}\n\n	return s.ListenAndServe()", "	s := &http.Server{ReadTimeout: cfg.ReadTimeout}\n	s.WriteTimeout = cfg.WriteTimeout\n	s.Addr = cfg.Addr.ToStr()\n	if err := s.ListenAndServe(); err != nil {\n		return err\n	}\n	return nil"))
g("api-fmt", (API, '		return errors.New("unexpected nil for RPCAddrs field in APIConfig")', '		return fmt.Errorf("unexpected nil for %s field in APIConfig", "RPCAddrs")'), (API, '	"errors"\n', '	"fmt"\n'))
g("rpc-make", (R, "	slots := make(map[string]*CManagerSlot)\n	table := CManagerTable{slots: slots}\n\n	return &KMeansServer{\n		addr:                       addr,\n		Table:                      &table,\n		CentroidManagerFactoryFunc: f,\n	}", "	s := new(KMeansServer)\n	s.addr = addr\n	s.CentroidManagerFactoryFunc = f\n	s.Table = &CManagerTable{slots: map[string]*CManagerSlot{}}\n	return s"))
g("rpc-table", (R, "	slots := make(map[string]*CManagerSlot)\n	table := CManagerTable{slots: slots}\n", "	table := newTable()\n"), (R, "		Table:                      &table,\n", "		Table:                      table,\n"), (R, "// NewKMeansServer sets up", "func newTable() *CManagerTable {\n	return &CManagerTable{slots: make(map[string]*CManagerSlot)}\n}\n\n// NewKMeansServer sets up"))
