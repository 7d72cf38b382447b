CL="pkg/kmeans/rpc/client.go"; SV="pkg/kmeans/rpc/server.go"; RP="pkg/kmeans/rpc/rpc.go"
bad("P22-dial-swallowed","P22",(CL,"		*c.err = err\n		return\n","		return\n"))
bad("P22-call-swallowed","P22",(CL,'*c.err = rc.Call("KMeansServer.LenDP", c.namespace, &resp)','rc.Call("KMeansServer.LenDP", c.namespace, &resp)'))
bad("P22-overwritten-by-close","P22",(CL,"	defer client.Close()\n	taskF(client)\n","	taskF(client)\n	*c.err = client.Close()\n"))
bad("P22-first-only","P22",(CL,'*c.err = rc.Call("KMeansServer.Vec", c.namespace, &resp)','if err := rc.Call("KMeansServer.Vec", c.namespace, &resp); err != nil && *c.err == nil && resp == nil {\n			*c.err = err\n		}'))
bad("P22-err-private","P22",(RP,"		err:        err,\n","		err:        new(error),\n"))
bad("P22-default-true","P22",(CL,"	var resp bool\n\n	c.client(func(rc *rpc.Client) {\n		args := AddDataPointArgs","	resp := true\n\n	c.client(func(rc *rpc.Client) {\n		args := AddDataPointArgs"))
bad("P22-nearest-true","P22",(CL,"		return nil, false\n	}\n\n	// Remove nil","		return nil, resp != nil || *c.err != nil\n	}\n\n	// Remove nil"))
bad("P22-steal-default-ok","P22",(CL,"	var ok bool\n	c.client","	ok := transferLimit == 0\n	c.client"))
bad("P22-empty-message","P22",(RP,"""	return fmt.Sprintf("namespace not found: '%v'", nse.namespace)""","""	return fmt.Sprintf("%v", nse.namespace)"""))
bad("P22-nserr-dropped","P22",(SV,"		return nsErr\n	}\n\n	// Fetch remote vecs. Done outside","		return nil\n	}\n\n	// Fetch remote vecs. Done outside"))
bad("P22-nserr-existing","P22",(SV,"	lookupOK := s.Table.Access(ns, f)\n	if !lookupOK {","	lookupOK := s.Table.Access(ns, f)\n	if !lookupOK || ns == \"\" {"))
bad("P22-nil-on-missing","P22",(SV,"	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)\n	})","	s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.KNNLookup(args.Vec, args.K, args.Drain)\n	})\n	return nil"))
bad("P22-early-nil","P22",(SV,"	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.DrainOrdered(args.N)","	if args.N < 1 {\n		return nil\n	}\n	return s.handleNamespaceErr(args.NameSpace, func(cm *CentroidManager) {\n		*resp = cm.DrainOrdered(args.N)"))
bad("P22-ok-always","P22",(SV,"	r.OK = clientErr == nil\n","	r.OK = r.TransferredN > 0 || clientErr == nil\n"))
bad("P22-ok-shadow","P22",(SV,"		localVec = client.Vec()\n		if localVec == nil {\n			return nil","		localVec = KMeansClient(args.FromAddr, args.NameSpace, nil).Vec()\n		if localVec == nil {\n			r.OK = true\n			return nil"))
bad("P22-ok-early","P22",(SV,"	for r.TransferredN < args.TransferDPLimit && clientErr == nil {","	r.OK = clientErr == nil\n	for r.TransferredN < args.TransferDPLimit && clientErr == nil {"),(SV,"	r.OK = clientErr == nil\n	return nil","	return nil"))
good("P22-close-explicit",(CL,"	defer client.Close()\n	taskF(client)\n","	taskF(client)\n	client.Close()\n"))
good("P22-else",(CL,"		*c.err = err\n		return\n	}\n	defer client.Close()\n	taskF(client)\n","		*c.err = err\n	} else {\n		defer client.Close()\n		taskF(client)\n	}\n"))
good("P22-err-helper",(CL,"func (c *kmeansClient) client(taskF","func (c *kmeansClient) fail(err error) {\n	*c.err = err\n}\n\nfunc (c *kmeansClient) client(taskF"),(CL,"		*c.err = err\n		return\n","		c.fail(err)\n		return\n"),(CL,'*c.err = rc.Call("KMeansServer.Vec", c.namespace, &resp)','c.fail(rc.Call("KMeansServer.Vec", c.namespace, &resp))'))
good("P22-task-returns-err",(CL,"""func (c *kmeansClient) client(taskF func(*rpc.Client)) {
	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
	defer client.Close()
	taskF(client)
}""","""func (c *kmeansClient) client(taskF func(*rpc.Client)) {
	client, err := rpc.Dial("tcp", c.remoteAddr)
	if err != nil {
		*c.err = err
		return
	}
	defer func() { _ = client.Close() }()
	taskF(client)
}

func (c *kmeansClient) call(op string, args, resp interface{}) {
	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call(op, args, resp)
	})
}"""),(CL,"""	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.LenDP", c.namespace, &resp)
	})
""","""	c.call("KMeansServer.LenDP", c.namespace, &resp)
"""),(CL,"""	c.client(func(rc *rpc.Client) {
		*c.err = rc.Call("KMeansServer.MemTrim", c.namespace, nil)
	})
""","""	c.call("KMeansServer.MemTrim", c.namespace, nil)
"""))
good("P22-nearest-len",(CL,"	if resp == nil || len(resp) == 0 {","	if len(resp) < 1 {"))
good("P22-nserr-inline",(SV,"	lookupOK := s.Table.Access(ns, f)\n	if !lookupOK {\n		return NamespaceErr{ns}\n	}\n	return nil","	if s.Table.Access(ns, f) {\n		return nil\n	}\n	return NamespaceErr{namespace: ns}"))
good("P22-dist-split",(SV,"	if nsErr != nil || len(dps) == 0 || len(args.AddrOptions) == 0 {\n		return nsErr\n	}\n\n	// Fetch remote vecs. Done outside","	if nsErr != nil {\n		return nsErr\n	}\n	if len(dps) == 0 || len(args.AddrOptions) == 0 {\n		return nil\n	}\n\n	// Fetch remote vecs. Done outside"))
good("P22-steal-ok-if",(SV,"	r.OK = clientErr == nil\n	return nil","	if clientErr != nil {\n		r.OK = false\n		return nil\n	}\n	r.OK = true\n	return nil"))
good("P22-steal-loop",(SV,"	for r.TransferredN < args.TransferDPLimit && clientErr == nil {\n","	for {\n		if r.TransferredN >= args.TransferDPLimit || clientErr != nil {\n			break\n		}\n"))
good("P22-msg-concat",(RP,"""	return fmt.Sprintf("namespace not found: '%v'", nse.namespace)""","""	return "namespace not found: " + fmt.Sprintf("'%v'", nse.namespace)"""))
