SV="pkg/kmeans/rpc/server.go"; CL="pkg/kmeans/rpc/client.go"; R="pkg/kmeans/rpc/rpc.go"; EL="core/eventloop/eltask.go"; EU="core/eventloop/eltaskutils.go"; NV="core/nodes/vecs.go"; GD="core/dps/getdps.go"; PD="core/dps/putdps.go"; H="core/api/handler.go"
bad("P06-empty-default","P06",(SV,"	lookupOK := s.Table.Access(ns, f)\n","	if ns == \"\" {\n		ns = \"default\"\n	}\n	lookupOK := s.Table.Access(ns, f)\n"))
bad("P06-trim","P06",(R,"	slot, ok := t.slots[namespace]\n	t.Unlock()","	slot, ok := t.slots[strings.TrimSpace(namespace)]\n	t.Unlock()"),(R,'	"net/rpc"\n','	"net/rpc"\n	"strings"\n'))
bad("P06-cache-slot","P06",(R,"	slot, ok := t.slots[namespace]\n	t.Unlock()","	slot, ok := t.slots[namespace]\n	if !ok && len(t.slots) == 1 {\n		for _, s := range t.slots {\n			slot, ok = s, true\n		}\n	}\n	t.Unlock()"))
bad("P06-putback","P06",(SV,"		gen := rsl.intoVecGenerator()\n		if !distributeDP(dp, gen, addrs, args.NameSpace) {\n			// Put back into self so the dp isn't lost.\n			s.Table.Access(args.NameSpace, func(cm *CentroidManager) {\n				cm.AddDataPoint(dp)\n			})","		gen := rsl.intoVecGenerator()\n		if !distributeDP(dp, gen, addrs, args.NameSpace) {\n			for _, ns := range s.Table.Namespaces() {\n				done := false\n				s.Table.Access(ns, func(cm *CentroidManager) {\n					done = cm.AddDataPoint(dp)\n				})\n				if done {\n					break\n				}\n			}"))
bad("P06-steal-store","P06",(SV,"		s.Table.AddSlot(args.NameSpace, &CManagerSlot{cManager: cm})","		s.Table.AddSlot(args.FromAddr, &CManagerSlot{cManager: cm})"))
bad("P06-client-ns","P06",(R,"		namespace:  namespace,\n		err: ","		namespace:  remoteAddr,\n		err: "))
bad("P06-forward-empty","P06",(SV,"		client := KMeansClient(addrs[index], namespace, nil)","		client := KMeansClient(addrs[index], addrs[0], nil)"))
bad("P06-fetch-accurate","P06",(NV,"		client := rpc.KMeansClient(addr.ToStr(), namespace, &err)","		client := rpc.KMeansClient(addr.ToStr(), \"test\", &err)"))
bad("P06-dps-private","P06",(GD,"		namespace: a.Namespace,\n		queryVec:","		namespace: \"\",\n		queryVec:"))
bad("P06-loop-addr","P06",(EL,"				client := rpc.KMeansClient(addr.ToStr(), namespace, nil)\n				n := cfg.DistributeDataPointsFastN","				client := rpc.KMeansClient(addr.ToStr(), addr.Port, nil)\n				n := cfg.DistributeDataPointsFastN"))
bad("P06-expire-all","P06",(SV,"func (s *KMeansServer) Expire(namespace string, _ *int) error {\n","func (s *KMeansServer) Expire(namespace string, _ *int) error {\n	if namespace == \"\" {\n		for _, ns := range s.Table.Namespaces() {\n			s.Table.Access(ns, func(cm *CentroidManager) { cm.Expire() })\n		}\n		return nil\n	}\n"))
bad("P06-meta-expires","P06",(SV,"			dps[ns] = cm.LenDP()","			cm.Expire()\n			dps[ns] = cm.LenDP()"))
bad("P06-opts","P06",(H,"		Namespace:     opts.Namespace,\n		QueryVec:","		Namespace:     r.URL.Query().Get(\"namespace\"),\n		QueryVec:"))
bad("P06-clone-manager","P06",(SV,"		centroidManager := s.CentroidManagerFactoryFunc(args.DP.Vec)\n","		var centroidManager *CentroidManager\n		s.Table.Access(\"template\", func(cm *CentroidManager) { centroidManager = cm })\n		if centroidManager == nil {\n			centroidManager = s.CentroidManagerFactoryFunc(args.DP.Vec)\n		}\n"))
good("P06-index",(EL,"	for _, ns := range namespaces {\n		task(cfg.LocalAddr, ns)\n	}","	for i := 0; i < len(namespaces); i++ {\n		task(cfg.LocalAddr, namespaces[i])\n	}"))
good("P06-inline-access",(SV,"	lookupOK := s.Table.Access(ns, f)\n	if !lookupOK {\n		return NamespaceErr{ns}\n	}\n	return nil","	if s.Table.Access(ns, f) {\n		return nil\n	}\n	return NamespaceErr{ns}"))
good("P06-slot-helper",(R,"	t.Lock()\n	slot, ok := t.slots[namespace]\n	t.Unlock()\n\n	if !ok {","	slot, ok := t.get(namespace)\n	if !ok {"),(R,"func (t *CManagerTable) Access(","func (t *CManagerTable) get(namespace string) (*CManagerSlot, bool) {\n	t.Lock()\n	defer t.Unlock()\n	slot, ok := t.slots[namespace]\n	return slot, ok\n}\n\nfunc (t *CManagerTable) Access("))
good("P06-newslot",(SV,"		slot := CManagerSlot{cManager: centroidManager}\n","		slot := new(CManagerSlot)\n		slot.cManager = centroidManager\n"),(SV,"		if s.Table.AddSlot(args.NameSpace, &slot) {","		if s.Table.AddSlot(args.NameSpace, slot) {"))
good("P06-clientvar",(GD,"	for _, addr := range args.addrOpts {\n		client := rpc.KMeansClient(addr.ToStr(), args.namespace, nil)","	ns := args.namespace\n	for _, addr := range args.addrOpts {\n		client := rpc.KMeansClient(addr.ToStr(), ns, nil)"))
good("P06-table-inline",(EL,"			for _, ns := range table.namespaces() {","			for ns := range table.items {"))
good("P06-meta-range",(SV,"	for _, ns := range namespaces {\n		s.Table","	for i := range namespaces {\n		ns := namespaces[i]\n		s.Table"))
