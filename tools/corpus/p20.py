NV="core/nodes/vecs.go"; SU="pkg/kmeans/rpc/serverutils.go"; CL="pkg/kmeans/rpc/client.go"; RP="pkg/kmeans/rpc/rpc.go"; TU="core/eventloop/eltaskutils.go"
SEND="			vec, ok := fetchFunc(addr)\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n"
LOOP="	for i := 0; i < f.chlen; i++ {\n		data := <-f.ch\n		if data.ok {\n			r = append(r, data)\n		}\n	}\n"
bad("P20-skip-send","P20",(NV,SEND,"			vec, ok := fetchFunc(addr)\n			if ok {\n				ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n			}\n"))
bad("P20-unbuffered","P20",(NV,"make(chan fetchVecsRes, len(addrs))","make(chan fetchVecsRes)"))
bad("P20-one-short","P20",(SU,"make(chan fetchVecsRes, len(addrs))","make(chan fetchVecsRes, len(addrs)-1)"))
bad("P20-early","P20",(SU,LOOP,"	for i := 0; i < f.chlen; i++ {\n		data := <-f.ch\n		if !data.ok {\n			break\n		}\n		r = append(r, data)\n	}\n"))
bad("P20-until-full","P20",(NV,LOOP,"	for len(r) < f.chlen {\n		data := <-f.ch\n		if data.ok {\n			r = append(r, data)\n		}\n	}\n"))
bad("P20-off-by-one","P20",(NV,LOOP,LOOP.replace("i < f.chlen","i <= f.chlen")))
bad("P20-capture","P20",(NV,"		go func(addr Addr) {","		go func() {"),(NV,"		}(addr)\n","		}()\n"))
bad("P20-dup-send","P20",(TU,"			ch <- nodeDPLen{addr, lenDP, ok}\n","			if !ok {\n				ch <- nodeDPLen{addr, 0, ok}\n			}\n			ch <- nodeDPLen{addr, lenDP, ok}\n"))
bad("P20-filter","P20",(TU,"		go func(addr Addr) {","		if addr.Comp(Addr{}) {\n			continue\n		}\n		go func(addr Addr) {"))
bad("P20-noclose","P20",(CL,"	defer client.Close()\n	taskF(client)","	taskF(client)\n	if *c.err == nil {\n		client.Close()\n	}"))
bad("P20-noclose2","P20",(CL,"	defer client.Close()\n",""))
bad("P20-listener","P20",(RP,"		ln.Close()\n		mu.Lock()","		mu.Lock()"))
bad("P20-serve-close","P20",(RP,"		if stopped {\n			mu.Unlock()\n			return\n		}","		if stopped {\n			mu.Unlock()\n			cxn = nil\n			return\n		}"),(RP,"		defer cxn.Close()\n",""))
bad("P20-stop-conns","P20",(RP,"		for conn := range conns {\n			conn.Close()\n		}\n","		conns = make(map[net.Conn]bool)\n"))
bad("P20-timeout","P20",(NV,"		data := <-f.ch\n		if data.ok {","		var data fetchVecsRes\n		select {\n		case data = <-f.ch:\n		case <-time.After(time.Second):\n		}\n		if data.ok {"),(NV,"import \"trypo/pkg/kmeans/rpc\"","import (\n	\"time\"\n	\"trypo/pkg/kmeans/rpc\"\n)"))
bad("P20-retry","P20",(NV,SEND,"			vec, ok := fetchFunc(addr)\n			for !ok {\n				vec, ok = fetchFunc(addr)\n			}\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: ok}\n"))
good("P20-defer-send",(NV,SEND,"			res := fetchVecsRes{addr: addr}\n			defer func() { ch <- res }()\n			res.vec, res.ok = fetchFunc(addr)\n"))
good("P20-if-send",(NV,SEND,"			vec, ok := fetchFunc(addr)\n			if !ok {\n				ch <- fetchVecsRes{addr: addr}\n				return\n			}\n			ch <- fetchVecsRes{vec: vec, addr: addr, ok: true}\n"))
good("P20-range-idx",(NV,"	for _, addr := range addrs {\n		go func","	for i := range addrs {\n		addr := addrs[i]\n		go func"))
good("P20-helper",(NV,"		go func(addr Addr) {\n"+SEND+"		}(addr)\n","		go fetchOne(addr, fetchFunc, ch)\n"),(NV,"// Used with fetchVecs to fetch remote vecs from 'addrs' using\n// rpc.KmeansClient(...).Vec()","func fetchOne(addr Addr, f func(Addr) ([]float64, bool), ch chan<- fetchVecsRes) {\n	vec, ok := f(addr)\n	ch <- fetchVecsRes{vec, addr, ok}\n}\n\n// Used with fetchVecs to fetch remote vecs from 'addrs' using\n// rpc.KmeansClient(...).Vec()"))
good("P20-countdown",(SU,LOOP,"	for left := f.chlen; left > 0; left-- {\n		data := <-f.ch\n		if !data.ok {\n			continue\n		}\n		r = append(r, data)\n	}\n"))
good("P20-collect-range",(TU,"	for i := 0; i < len(addrs); i++ {\n		r := <-ch","	for range addrs {\n		r := <-ch"))
good("P20-shadow",(TU,"		go func(addr Addr) {","		addr := addr\n		go func() {"),(TU,"		}(addr)\n","		}()\n"))
good("P20-close-plain",(CL,"	defer client.Close()\n	taskF(client)","	taskF(client)\n	client.Close()"))
good("P20-serve-explicit",(RP,"		defer cxn.Close()\n",""),(RP,"			mu.Unlock()\n			return\n		}\n		conns[cxn] = true","			mu.Unlock()\n			cxn.Close()\n			return\n		}\n		conns[cxn] = true"),(RP,"		delete(conns, cxn)\n		mu.Unlock()","		delete(conns, cxn)\n		mu.Unlock()\n		cxn.Close()"))
good("P20-cap-more",(NV,"make(chan fetchVecsRes, len(addrs))","make(chan fetchVecsRes, len(addrs)+1)"))
good("P20-chcap",(NV,"	for i := 0; i < f.chlen; i++ {","	for i, n := 0, f.chlen; i < n; i++ {"))
