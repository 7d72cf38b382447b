R = "pkg/kmeans/rpc/rpc.go"
def b(n, *e): bad("P32-" + n, "P32", *e)
def g(n, *e): good("P32-" + n, *e)

STOP = "		ln.Close()\n		mu.Lock()\n		defer mu.Unlock()\n		stopped = true\n		for conn := range conns {\n			conn.Close()\n		}\n"
REG = "		mu.Lock()\n		if stopped {\n			mu.Unlock()\n			return\n		}\n		conns[cxn] = true\n		mu.Unlock()\n"
ACC = "			cxn, err := ln.Accept()\n			if err != nil {\n				break\n			}\n			go serve(cxn)\n"
b("noflag", (R, "		stopped = true\n", "		stopped = false\n"))
b("flag-late", (R, STOP, "		ln.Close()\n		mu.Lock()\n		for conn := range conns {\n			conn.Close()\n		}\n		mu.Unlock()\n		mu.Lock()\n		stopped = true\n		mu.Unlock()\n"))
b("flag-cond", (R, "		stopped = true\n", "		stopped = len(conns) > 0\n"))
b("listening", (R, "		ln.Close()\n		mu.Lock()\n", "		mu.Lock()\n"))
b("listening-idle", (R, "		ln.Close()\n		mu.Lock()\n", "		mu.Lock()\n		if len(conns) == 0 {\n			ln.Close()\n		}\n"))
b("some", (R, "			conn.Close()\n		}\n", "			conn.Close()\n			break\n		}\n"))
b("half", (R, "			conn.Close()\n		}\n", "			if conns[conn] && len(conns) > 1 {\n				conn.Close()\n			}\n		}\n"))
b("reg-two", (R, REG, "		mu.Lock()\n		off := stopped\n		mu.Unlock()\n		if off {\n			return\n		}\n		mu.Lock()\n		conns[cxn] = true\n		mu.Unlock()\n"))
b("reg-nocheck", (R, REG, "		mu.Lock()\n		_ = stopped\n		conns[cxn] = true\n		mu.Unlock()\n"))
b("reg-none", (R, "		conns[cxn] = true\n", ""))
b("reg-tidy", (R, "		handler.ServeConn(cxn)\n\n		mu.Lock()\n		delete(conns, cxn)\n		mu.Unlock()\n", "		mu.Lock()\n		delete(conns, cxn)\n		mu.Unlock()\n\n		handler.ServeConn(cxn)\n"))
b("one", (R, "			go serve(cxn)\n", "			serve(cxn)\n"))
b("first", (R, "			go serve(cxn)\n", "			go serve(cxn)\n			break\n"))
b("forever", (R, ACC, "			cxn, err := ln.Accept()\n			if err != nil {\n				continue\n			}\n			go serve(cxn)\n"))
b("limit", (R, "		if stopped {\n", "		if stopped || len(conns) > 100 {\n"))
b("skip", (R, "			go serve(cxn)\n", "			if cxn.RemoteAddr() == nil {\n				cxn.Close()\n				continue\n			}\n			go serve(cxn)\n"))
b("err-nil", (R, "		return nil, err\n	}\n\n	var mu", "		return func() {}, nil\n	}\n\n	var mu"))
b("err-ign", (R, "	if err != nil {\n		return nil, err\n	}\n\n	var mu", "	if err != nil && ln == nil {\n		return nil, err\n	}\n\n	var mu"))
b("nostop", (R, "	return stop, nil\n", "	return func() { ln.Close() }, nil\n"))
b("stop-wait", (R, "		stopped = true\n		for conn := range conns {\n			conn.Close()\n		}\n", "		for conn := range conns {\n			conn.Close()\n		}\n		if len(conns) == 0 {\n			stopped = true\n		}\n"))

g("order", (R, STOP, "		mu.Lock()\n		stopped = true\n		for conn := range conns {\n			conn.Close()\n		}\n		mu.Unlock()\n		ln.Close()\n"))
g("same-section", (R, "		stopped = true\n		for conn := range conns {\n			conn.Close()\n		}\n", "		for conn := range conns {\n			_ = conn.Close()\n		}\n		stopped = true\n"))
g("again", (R, "		stopped = true\n", "		if stopped {\n			return\n		}\n		stopped = true\n"))
g("register", (R, REG, "		if !register(cxn) {\n			return\n		}\n"), (R, "	serve := func(cxn net.Conn) {\n", "	register := func(cxn net.Conn) bool {\n		mu.Lock()\n		defer mu.Unlock()\n		if !stopped {\n			conns[cxn] = true\n		}\n		return !stopped\n	}\n\n	serve := func(cxn net.Conn) {\n"))
g("reg-first", (R, REG, "		mu.Lock()\n		conns[cxn] = true\n		if stopped {\n			delete(conns, cxn)\n			mu.Unlock()\n			return\n		}\n		mu.Unlock()\n"))
g("set", (R, "make(map[net.Conn]bool)", "make(map[net.Conn]struct{})"), (R, "		conns[cxn] = true\n", "		conns[cxn] = struct{}{}\n"))
g("inline", (R, "			go serve(cxn)\n", "			go func() { serve(cxn) }()\n"))
g("return", (R, "				break\n			}\n			go serve(cxn)\n", "				return\n			}\n			go serve(cxn)\n"))
g("struct", (R, '''	var mu sync.Mutex // Guards the two vars below.
	conns := make(map[net.Conn]bool)
	stopped := false
	stop = func() {
		ln.Close()
		mu.Lock()
		defer mu.Unlock()
		stopped = true
		for conn := range conns {
			conn.Close()
		}
	}
''', '''	tr := &connTracker{conns: make(map[net.Conn]bool)}
	stop = func() {
		ln.Close()
		tr.closeAll()
	}
'''), (R, REG, "		if !tr.add(cxn) {\n			return\n		}\n"), (R, "		mu.Lock()\n		delete(conns, cxn)\n		mu.Unlock()\n", "		tr.remove(cxn)\n"), (R, "// StartListen is a", '''type connTracker struct {
	sync.Mutex
	conns   map[net.Conn]bool
	stopped bool
}

func (t *connTracker) add(c net.Conn) bool {
	t.Lock()
	defer t.Unlock()
	if t.stopped {
		return false
	}
	t.conns[c] = true
	return true
}

func (t *connTracker) remove(c net.Conn) {
	t.Lock()
	delete(t.conns, c)
	t.Unlock()
}

func (t *connTracker) closeAll() {
	t.Lock()
	defer t.Unlock()
	t.stopped = true
	for c := range t.conns {
		c.Close()
	}
}

// StartListen is a'''))
