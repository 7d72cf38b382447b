CE="pkg/kmeans/centroid/centroid.go"; CM="pkg/kmeans/centroidmanager/cmanager.go"; SV="pkg/kmeans/rpc/server.go"; PU="core/dps/putdps.go"
bad("P02-centroid-true","P02",(CE,"	if len(dp.Vec) != len(c.vec) || dp.Expired() {\n		return false\n	}","	if dp.Expired() {\n		return false\n	}\n	if len(dp.Vec) != len(c.vec) {\n		return true\n	}"))
bad("P02-centroid-before","P02",(CE,"	if len(dp.Vec) != len(c.vec) || dp.Expired() {\n		return false\n	}\n	c.addDataPoint(dp)","	c.addDataPoint(dp)\n	if dp.Expired() {\n		return false\n	}\n"))
bad("P02-centroid-cap","P02",(CE,"	c.DataPoints = append(c.DataPoints, dp)\n","	if len(c.DataPoints) < cap(c.DataPoints) || dp.Payload != nil {\n		c.DataPoints = append(c.DataPoints, dp)\n	}\n"))
bad("P02-first","P02",(CM,"		if !c.AddDataPoint(dp) {\n			return false\n		}\n		cm.Centroids","		c.AddDataPoint(dp)\n		cm.Centroids"))
bad("P02-first-noappend","P02",(CM,"		cm.Centroids = append(cm.Centroids, c)\n		cm.vec = c.Vec()","		cm.vec = c.Vec()"))
bad("P02-refused-true","P02",(CM,"	if !centroid.AddDataPoint(dp) {\n		return false\n	}","	if !centroid.AddDataPoint(dp) {\n		return true\n	}"))
bad("P02-split-false","P02",(CM,"		if splitOK {\n			cm.Centroids = append(cm.Centroids, newCentroid)\n			cm.syncVec()\n		}\n	}\n	return true","		if !splitOK {\n			return false\n		}\n		cm.Centroids = append(cm.Centroids, newCentroid)\n		cm.syncVec()\n	}\n	return true"))
bad("P02-stripped","P02",(CM,"	if !centroid.AddDataPoint(dp) {\n		return false\n	}","	if !centroid.AddDataPoint(common.DataPoint{Vec: dp.Vec, Payload: dp.Payload}) {\n		return false\n	}"))
bad("P02-server-race","P02",(SV,"		s.Table.Access(args.NameSpace, add)\n	}","		*resp = true\n	}"))
bad("P02-server-noack","P02",(SV,"			*resp = true\n			return nil\n		}","			return nil\n		}"))
bad("P02-server-ignore","P02",(SV,"		if !centroidManager.AddDataPoint(args.DP) {\n			return nil\n		}","		centroidManager.AddDataPoint(args.DP)"))
bad("P02-server-twice","P02",(SV,"		if s.Table.AddSlot(args.NameSpace, &slot) {\n			*resp = true\n			return nil\n		}","		if s.Table.AddSlot(args.NameSpace, &slot) {\n			*resp = true\n		}"))
bad("P02-server-default","P02",(SV,"	lookupOK := s.Table.Access(args.NameSpace, add)","	*resp = true\n	lookupOK := s.Table.Access(args.NameSpace, add)"))
bad("P02-put-all","P02",(PU,"	for _, addr := range addrOpt {","	stored := false\n	for _, addr := range addrOpt {"),(PU,"		if ok {\n			return true\n		}\n	}\n	return false","		stored = stored || ok\n	}\n	return stored"))
bad("P02-put-true","P02",(PU,"	return false","	return len(addrOpt) > 0"))
bad("P02-put-last","P02",(PU,"		if ok {\n			return true\n		}\n	}\n	return false","		last = ok\n	}\n	return last"),(PU,"	for _, addr := range addrOpt {","	last := false\n	for _, addr := range addrOpt {"))
bad("P02-client","P02",("pkg/kmeans/rpc/client.go","(dp DataPoint) bool {\n	resp := false","(dp DataPoint) bool {\n	resp := true")) if False else None
good("P02-put-flag",(PU,"		if ok {\n			return true\n		}\n	}\n	return false","		if ok {\n			stored = true\n			break\n		}\n	}\n	return stored"),(PU,"	for _, addr := range addrOpt {","	stored := false\n	for _, addr := range addrOpt {"))
good("P02-put-cond",(PU,"""	for _, addr := range addrOpt {
		// Try node for as long as one accepts.
""" if False else "	for _, addr := range addrOpt {","	stored := false\n	for i := 0; i < len(addrOpt) && !stored; i++ {\n		addr := addrOpt[i]"),(PU,"		if ok {\n			return true\n		}\n	}\n	return false","		stored = ok\n	}\n	return stored"))
good("P02-centroid-pos",(CE,"	if len(dp.Vec) != len(c.vec) || dp.Expired() {\n		return false\n	}\n	c.addDataPoint(dp)\n	return true","	ok := len(dp.Vec) == len(c.vec) && !dp.Expired()\n	if ok {\n		c.addDataPoint(dp)\n	}\n	return ok"))
good("P02-first-order",(CM,"		if !c.AddDataPoint(dp) {\n			return false\n		}\n		cm.Centroids = append(cm.Centroids, c)\n		cm.vec = c.Vec()\n		return true","		ok := c.AddDataPoint(dp)\n		if ok {\n			cm.vec = c.Vec()\n			cm.Centroids = append(cm.Centroids, c)\n		}\n		return ok"))
good("P02-fallback",(CM,"	if !centroid.AddDataPoint(dp) {\n		return false\n	}","	accepted := centroid.AddDataPoint(dp)\n	if !accepted {\n		return accepted\n	}"))
good("P02-server-var",(SV,"		if s.Table.AddSlot(args.NameSpace, &slot) {\n			*resp = true\n			return nil\n		}\n","		registered := s.Table.AddSlot(args.NameSpace, &slot)\n		if registered {\n			*resp = registered\n			return nil\n		}\n"))
good("P02-server-ok",(SV,"		if !centroidManager.AddDataPoint(args.DP) {\n			return nil\n		}","		*resp = centroidManager.AddDataPoint(args.DP)\n		if !*resp {\n			return nil\n		}\n		*resp = false"))
