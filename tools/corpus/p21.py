H="core/api/handler.go"; A="core/api/api.go"
bad("P21-swap-routes","P21",(H,'"/api/dp/put":   h.putDataPoint,\n		"/api/dp/query": h.queryDataPoint','"/api/dp/put":   h.queryDataPoint,\n		"/api/dp/query": h.putDataPoint'))
bad("P21-route-name","P21",(H,'"/api/dp/query": h.','"/api/dp/get": h.'))
bad("P21-no-400","P21",(H,"		w.WriteHeader(http.StatusBadRequest)\n		return false","		return false"))
bad("P21-422","P21",(H,"		w.WriteHeader(http.StatusBadRequest)\n		return false","		w.WriteHeader(http.StatusUnprocessableEntity)\n		return false"))
bad("P21-go-on","P21",(H,"		w.WriteHeader(http.StatusBadRequest)\n		return false","		w.WriteHeader(http.StatusBadRequest)\n		return len(body) > 0"))
bad("P21-empty-ok","P21",(H,"	err := json.Unmarshal(body, targetOpt)\n	if err != nil {","	err := json.Unmarshal(body, targetOpt)\n	if err != nil && len(body) != 0 {"))
bad("P21-decoder","P21",(H,"	body, _ := ioutil.ReadAll(r.Body)\n	err := json.Unmarshal(body, targetOpt)","	err := json.NewDecoder(r.Body).Decode(targetOpt)"),(H,'	"io/ioutil"\n',''))
bad("P21-put-always-200","P21",(H,"	case false:\n		w.WriteHeader(http.StatusInternalServerError)","	case false:\n		w.WriteHeader(http.StatusOK)"))
bad("P21-put-500-missing","P21",(H,"	case false:\n		w.WriteHeader(http.StatusInternalServerError)\n",""))
bad("P21-put-early","P21",(H,"	putOk := false\n	switch opts","	w.WriteHeader(http.StatusOK)\n	putOk := false\n	switch opts"))
bad("P21-put-twice","P21",(H,"	if !putOk {\n		putOk","	if !putOk || len(h.RPCAddrs) == 1 {\n		putOk"))
bad("P21-put-forgot","P21",(H,"		putOk = dps.PutDataPointRand(args)","		dps.PutDataPointRand(args)\n		putOk = true"))
bad("P21-query-drop","P21",(H,"	if resp != nil {","	if len(resp) > 1 {"))
bad("P21-query-fast-only","P21",(H,"	case true:\n		resp = dps.GetDataPointsAccurate","	case true:\n		resp = dps.GetDataPointsFast"))
bad("P21-drain-lost","P21",(H,"		Drain:         opts.Drain,\n",""))
bad("P21-drain-always","P21",(H,"Drain:         opts.Drain","Drain:         opts.Drain || opts.Accurate"))
bad("P21-n","P21",(H,'`json:"n"`','`json:"count"`'))
bad("P21-euc","P21",(H,"		Drain:         opts.Drain,\n		KNNSearchFunc: searchutils.KNNCos","		Drain:         opts.Drain,\n		KNNSearchFunc: searchutils.KNNEuc"))
bad("P21-addrs","P21",(A,"h := handler{RPCAddrs: cfg.RPCAddrs}","h := handler{RPCAddrs: []Addr{cfg.Addr}}"))
bad("P21-mux","P21",(A,"		Addr:         cfg.Addr.ToStr(),\n","		Addr:         cfg.Addr.ToStr(),\n		Handler:      http.NewServeMux(),\n"))
bad("P21-background","P21",(H,"		putOk = dps.PutDataPointRand(args)","		go dps.PutDataPointRand(args)\n		putOk = true"))
good("P21-status-var",(H,"	switch putOk {\n	case true:\n		w.WriteHeader(http.StatusOK)\n	case false:\n		w.WriteHeader(http.StatusInternalServerError)\n	}","	status := http.StatusInternalServerError\n	if putOk {\n		status = http.StatusOK\n	}\n	w.WriteHeader(status)"))
good("P21-ifs",(H,"	switch opts.Accurate {\n	case true:\n		putOk = dps.PutDataPointAccurate(args)\n	case false:\n		putOk = dps.PutDataPointFast(args)\n	}","	if opts.Accurate {\n		putOk = dps.PutDataPointAccurate(args)\n	} else {\n		putOk = dps.PutDataPointFast(args)\n	}"))
good("P21-helper",(H,"	putOk := false\n	switch opts.Accurate {\n	case true:\n		putOk = dps.PutDataPointAccurate(args)\n	case false:\n		putOk = dps.PutDataPointFast(args)\n	}\n\n	// Will be false if none of the nodes are initialised.\n	if !putOk {\n		putOk = dps.PutDataPointRand(args)\n	}\n","	putOk := tryPut(args, opts.Accurate)\n"),(H,"// Pass request to dps.GetDataPointX","func tryPut(args dps.PutDataPointArgs, accurate bool) bool {\n	if accurate && dps.PutDataPointAccurate(args) {\n		return true\n	}\n	if !accurate && dps.PutDataPointFast(args) {\n		return true\n	}\n	return dps.PutDataPointRand(args)\n}\n\n// Pass request to dps.GetDataPointX"))
good("P21-handlefunc",(H,"		http.Handle(k, http.HandlerFunc(v))","		http.HandleFunc(k, v)"))
good("P21-direct",(H,"	for k, v := range routes {\n		http.Handle(k, http.HandlerFunc(v))\n		fmt.Printf(\"route '%v' is up.\\n\", k)\n	}","	fmt.Println(len(routes))\n	http.HandleFunc(\"/api/dp/put\", h.putDataPoint)\n	http.HandleFunc(\"/api/dp/query\", h.queryDataPoint)"))
good("P21-table",(H,"	routes := map[string]func(http.ResponseWriter, *http.Request){\n		\"/api/dp/put\":   h.putDataPoint,\n		\"/api/dp/query\": h.queryDataPoint,\n	}\n	for k, v := range routes {\n		http.Handle(k, http.HandlerFunc(v))\n		fmt.Printf(\"route '%v' is up.\\n\", k)\n	}","	routes := []struct {\n		path string\n		f    func(http.ResponseWriter, *http.Request)\n	}{\n		{\"/api/dp/put\", h.putDataPoint},\n		{\"/api/dp/query\", h.queryDataPoint},\n	}\n	for _, r := range routes {\n		http.Handle(r.path, http.HandlerFunc(r.f))\n		fmt.Printf(\"route '%v' is up.\\n\", r.path)\n	}"))
good("P21-readall",(H,"	body, _ := ioutil.ReadAll(r.Body)\n	err := json.Unmarshal(body, targetOpt)\n	if err != nil {\n		w.WriteHeader(http.StatusBadRequest)\n		return false\n	}\n	return true","	body, err := ioutil.ReadAll(r.Body)\n	if err == nil {\n		err = json.Unmarshal(body, targetOpt)\n	}\n	if err == nil {\n		return true\n	}\n	w.WriteHeader(http.StatusBadRequest)\n	return false"))
good("P21-mux",(H,"func (h *handler) setRoutes() {","func (h *handler) setRoutes() *http.ServeMux {\n	mux := http.NewServeMux()"),(H,"		http.Handle(k, http.HandlerFunc(v))\n		fmt.Printf(\"route '%v' is up.\\n\", k)\n	}\n","		mux.Handle(k, http.HandlerFunc(v))\n		fmt.Printf(\"route '%v' is up.\\n\", k)\n	}\n	return mux\n"),(A,"	h.setRoutes()\n","	mux := h.setRoutes()\n"),(A,"		Addr:         cfg.Addr.ToStr(),\n","		Addr:         cfg.Addr.ToStr(),\n		Handler:      mux,\n"))
good("P21-conv-empty",(H,"	var respConv []DP\n	if resp != nil {\n		respConv = DataPointsToDPs(resp)\n	}\n\n	b, _ := json.Marshal(respConv)\n	w.WriteHeader(http.StatusOK)\n	w.Write(b)","	respond(w, resp)"),(H,"// Pass request to dps.GetDataPointX","func respond(w http.ResponseWriter, found []common.DataPoint) {\n	var conv []DP\n	if len(found) > 0 {\n		conv = DataPointsToDPs(found)\n	}\n	b, err := json.Marshal(conv)\n	if err != nil {\n		w.WriteHeader(http.StatusInternalServerError)\n		return\n	}\n	w.Write(b)\n}\n\n// Pass request to dps.GetDataPointX"))
