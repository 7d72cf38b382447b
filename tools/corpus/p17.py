EL="core/eventloop/el.go"; ET="core/eventloop/eltask.go"; CF="core/eventloop/cfg.go"
bad("P17-wrong-skip","P17",(ET,"	withSkip(cfg, cfg.TaskSkip.MergeCentroids, func","	withSkip(cfg, cfg.TaskSkip.SplitCentroids, func"))
bad("P17-wrong-amount","P17",(ET,"			n := cfg.DistributeDataPointsInternalN","			n := cfg.DistributeDataPointsFastN"))
bad("P17-swapped","P17",(ET,"go client.MergeCentroids(cfg.MergeCentroidsMin, cfg.MergeCentroidsMax)","go client.MergeCentroids(cfg.MergeCentroidsMax, cfg.MergeCentroidsMin)"))
bad("P17-reset-early","P17",(EL,"if cfg.internal.iter > 1000 {","if cfg.internal.iter > 100 {"))
bad("P17-reset-all","P17",(EL,"if cfg.internal.iter > 1000 {","if cfg.internal.iter > cfg.TaskSkip.Expire {"))
bad("P17-clamp-max","P17",(CF,"cfg.TaskSkip.clamp(1, 1001)","cfg.TaskSkip.clamp(1, 1000)"))
bad("P17-clamp-min","P17",(CF,"cfg.TaskSkip.clamp(1, 1001)","cfg.TaskSkip.clamp(0, 1001)"))
bad("P17-clamp-forgotten","P17",(CF,"		&cfg.LoadBalancing,\n",""))
bad("P17-clamp-max100","P17",(CF,"		if *v > max {\n			*v = max","		if *v > 500 {\n			*v = max"))
bad("P17-never","P17",(ET,"if interval <= 1000 && cfg","if cfg"))
bad("P17-limit","P17",(ET,"if interval <= 1000 && cfg","if interval < 1000 && cfg"))
bad("P17-no-recheck","P17",(EL,"	// Neat in case timeout is long.\n	if cfg.internal.isStopped() {\n		return\n	}\n",""))
bad("P17-stop-reset","P17",(EL,"			time.Sleep(cfg.TimeoutLoop)\n","			time.Sleep(cfg.TimeoutLoop)\n			if len(cfg.RemoteAddrs) == 0 {\n				atomic.StoreInt32(&cfg.internal.stopped, 0)\n			}\n"))
bad("P17-stop-goes-on","P17",(EL,"		for !cfg.internal.isStopped() {","		for {"))
bad("P17-ends-early","P17",(EL,"			time.Sleep(cfg.TimeoutLoop)\n","			time.Sleep(cfg.TimeoutLoop)\n			if len(cfg.RemoteAddrs) == 0 {\n				return\n			}\n"))
bad("P17-ns-first","P17",(ET,"	for _, ns := range namespaces {\n		task(cfg.LocalAddr, ns)\n	}","	for _, ns := range namespaces {\n		task(cfg.LocalAddr, ns)\n		if cfg.internal.isStopped() || len(ns) == 0 {\n			break\n		}\n	}"))
bad("P17-ns-skip-empty","P17",(ET,"	for _, ns := range namespaces {\n		task(cfg.LocalAddr, ns)\n	}","	for _, ns := range namespaces {\n		if ns == \"\" {\n			continue\n		}\n		task(cfg.LocalAddr, ns)\n	}"))
bad("P17-duty-gone","P17",(EL,"			elStep(cfg, eltExpire)\n",""))
bad("P17-duty-twice-tick","P17",(EL,"			// Tick & wraparound.\n			cfg.internal.iter++\n",""),(EL,"	time.Sleep(cfg.TimeoutStep)\n","	time.Sleep(cfg.TimeoutStep)\n	cfg.internal.iter++\n"))
bad("P17-tick-middle","P17",(EL,"			elStep(cfg, eltMergeCentroids)\n","			elStep(cfg, eltMergeCentroids)\n			cfg.internal.iter++\n"),(EL,"			// Tick & wraparound.\n			cfg.internal.iter++\n",""))
bad("P17-meta-cond","P17",(ET,"		cfg.L.LogMeta(metaData)","		if len(metaData.Items) > 1 {\n			cfg.L.LogMeta(metaData)\n		}"))
bad("P17-meta-swap","P17",(ET,"				LenDP:        meta.DPs,\n				LenCentroids: meta.Centroids,","				LenDP:        meta.Centroids,\n				LenCentroids: meta.DPs,"))
bad("P17-expire-remote","P17",(ET,"func eltExpire(cfg *EventLoopConfig) {\n	withSkip(cfg, cfg.TaskSkip.Expire, func() {\n		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {\n","func eltExpire(cfg *EventLoopConfig) {\n	withSkip(cfg, cfg.TaskSkip.Expire, func() {\n		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {\n			addr = cfg.RemoteAddrs[0]\n"))
good("P17-tasks",(EL,"			elStep(cfg, eltExpire)\n			elStep(cfg, eltMemTrim)\n\n			elStep(cfg, eltMergeCentroids)\n			elStep(cfg, eltSplitCentroids)\n","			elStep(cfg, eltSplitCentroids)\n			elStep(cfg, eltExpire)\n			elStep(cfg, eltMergeCentroids)\n			elStep(cfg, eltMemTrim)\n"))
good("P17-for-break",(EL,"		for !cfg.internal.isStopped() {\n","		for {\n			if cfg.internal.isStopped() {\n				break\n			}\n"))
good("P17-clamp-helper",(CF,"		if *v < min {\n			*v = min\n		}\n		if *v > max {\n			*v = max\n		}\n","		*v = clampInt(*v, min, max)\n"),(CF,"type eventLoopInternal struct","func clampInt(v, min, max int) int {\n	if v < min {\n		return min\n	}\n	if v > max {\n		return max\n	}\n	return v\n}\n\ntype eventLoopInternal struct"))
good("P17-clamp-index",(CF,"	for _, v := range items {\n","	for i := 0; i < len(items); i++ {\n		v := items[i]\n"))
good("P17-clamp-each",(CF,"	cfg.TaskSkip.clamp(1, 1001)\n","	ts := &cfg.TaskSkip\n	ts.Expire = clampInt(ts.Expire, 1, 1001)\n	ts.MemTrim = clampInt(ts.MemTrim, 1, 1001)\n	ts.DistributeDataPointsFast = clampInt(ts.DistributeDataPointsFast, 1, 1001)\n	ts.DistributeDataPointsAccurate = clampInt(ts.DistributeDataPointsAccurate, 1, 1001)\n	ts.DistributeDataPointsInternal = clampInt(ts.DistributeDataPointsInternal, 1, 1001)\n	ts.SplitCentroids = clampInt(ts.SplitCentroids, 1, 1001)\n	ts.MergeCentroids = clampInt(ts.MergeCentroids, 1, 1001)\n	ts.LoadBalancing = clampInt(ts.LoadBalancing, 1, 1001)\n	ts.Meta = clampInt(ts.Meta, 1, 1001)\n"),(CF,"type eventLoopInternal struct","func clampInt(v, min, max int) int {\n	if v < min {\n		return min\n	}\n	if v > max {\n		return max\n	}\n	return v\n}\n\ntype eventLoopInternal struct"))
good("P17-wrap-else",(EL,"			cfg.internal.iter++\n			if cfg.internal.iter > 1000 {\n				cfg.internal.iter = 0\n			}\n","			if cfg.internal.iter >= 1000 {\n				cfg.internal.iter = 0\n			} else {\n				cfg.internal.iter++\n			}\n"))
good("P17-wrap-mod",(EL,"			cfg.internal.iter++\n			if cfg.internal.iter > 1000 {\n				cfg.internal.iter = 0\n			}\n","			cfg.internal.iter = (cfg.internal.iter + 1) % 1001\n"))
good("P17-wrap-method",(EL,"			cfg.internal.iter++\n			if cfg.internal.iter > 1000 {\n				cfg.internal.iter = 0\n			}\n","			cfg.internal.tick()\n"),(CF,"func (i *eventLoopInternal) isStopped","func (i *eventLoopInternal) tick() {\n	next := i.iter + 1\n	if next > 1000 {\n		next = 0\n	}\n	i.iter = next\n}\n\nfunc (i *eventLoopInternal) isStopped"))
good("P17-skip-early",(ET,"	if interval <= 1000 && cfg.internal.iter%interval == 0 {\n		task()\n	}","	if interval > 1000 {\n		return\n	}\n	if cfg.internal.iter%interval != 0 {\n		return\n	}\n	task()"))
good("P17-due-helper",(ET,"	if interval <= 1000 && cfg.internal.iter%interval == 0 {\n		task()\n	}","	if cfg.internal.due(interval) {\n		task()\n	}"),(CF,"func (i *eventLoopInternal) isStopped","func (i *eventLoopInternal) due(interval int) bool {\n	return interval <= 1000 && i.iter%interval == 0\n}\n\nfunc (i *eventLoopInternal) isStopped"))
good("P17-loop-func",(EL,"	go func() {\n		// Note: tasks are _not_ arbitrarily ordered.\n		for","	go runLoop(cfg)\n\n	return func() {\n		atomic.StoreInt32(&cfg.internal.stopped, 1)\n	}\n}\n\nfunc runLoop(cfg *EventLoopConfig) {\n		for"),(EL,"		}\n	}()\n\n	return func() {\n		atomic.StoreInt32(&cfg.internal.stopped, 1)\n	}\n}","		}\n}"))
good("P17-task-slice",(EL,"			elStep(cfg, eltMeta)\n\n			elStep(cfg, eltExpire)\n			elStep(cfg, eltMemTrim)\n\n			elStep(cfg, eltMergeCentroids)\n			elStep(cfg, eltSplitCentroids)\n\n			elStep(cfg, eltDistributeDataPointsInternal)\n			elStep(cfg, eltDistributeDataPointsFast)\n			elStep(cfg, eltDistributeDataPointsAccurate)\n\n			elStep(cfg, eltLoadBalancing)\n","			for _, task := range []func(*EventLoopConfig){\n				eltMeta,\n				eltExpire,\n				eltMemTrim,\n				eltMergeCentroids,\n				eltSplitCentroids,\n				eltDistributeDataPointsInternal,\n				eltDistributeDataPointsFast,\n				eltDistributeDataPointsAccurate,\n				eltLoadBalancing,\n			} {\n				elStep(cfg, task)\n			}\n"))
good("P17-meta-direct",(ET,"		for _, addr := range pullFrom {\n			meta :=","		for i := range pullFrom {\n			addr := pullFrom[i]\n			meta :="))
good("P17-step-invert",(EL,"	if cfg.internal.isStopped() {\n		return\n	}\n	task(cfg)","	if !cfg.internal.isStopped() {\n		task(cfg)\n	}"))
TRIM = '''		withLocalAddrNamespaces(cfg, func(addr Addr, namespace string) {
			cfg.L.LogTask(fmt.Sprintf("(ns '%v') memtrim", namespace))

			go rpc.KMeansClient(addr.ToStr(), namespace, nil).MemTrim()
		})
'''
LOOP = '''		addr := cfg.LocalAddr
		for _, namespace := range rpc.KMeansClient(addr.ToStr(), "", nil).Namespaces() {
%s			cfg.L.LogTask(fmt.Sprintf("(ns '%%v') memtrim", namespace))

			go func() {
%s			}()
		}
'''
RUN = "				rpc.KMeansClient(addr.ToStr(), namespace, nil).MemTrim()\n"
bad("P17-go-capture", "P17", (ET, TRIM, LOOP % ("", RUN)))
bad("P17-go-cond", "P17", (ET, TRIM, LOOP % ("			namespace := namespace\n", "				if namespace == \"\" {\n					return\n				}\n" + RUN)))
bad("P17-go-sleep", "P17", (ET, TRIM, LOOP % ("			namespace := namespace\n", "				time.Sleep(cfg.TimeoutStep)\n" + RUN)), (ET, 'import (\n', 'import (\n	"time"\n'))
good("P17-go-copy", (ET, TRIM, LOOP % ("			addr, namespace := addr, namespace\n", RUN)))
