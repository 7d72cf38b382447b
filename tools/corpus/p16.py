H="core/api/handler.go"; V="core/api/conv.go"; PD="core/dps/putdps.go"; GD="core/dps/getdps.go"; CE="pkg/kmeans/centroid/centroid.go"; SV="pkg/kmeans/rpc/server.go"; DPF="pkg/kmeans/common/datapoint.go"
bad("P16-no-expireflag","P16",(V,"		Expires:       dp.Expires,\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}","		Expires:       dp.Expires,\n	}\n}"))
bad("P16-reply-nopayload","P16",(V,"			Vec:           dp.Vec,\n			Payload:       dp.Payload,","			Vec:           dp.Vec,"))
bad("P16-enabled-from-time","P16",(V,"		ExpireEnabled: dp.ExpireEnabled,\n	}\n}","		ExpireEnabled: !dp.Expires.IsZero(),\n	}\n}"))
bad("P16-omitempty","P16",(V,'`json:"payload"`','`json:"payload,omitempty"`'))
bad("P16-tag","P16",(V,'`json:"expireEnabled"`','`json:"expire_enabled"`'))
bad("P16-off-by-one","P16",(V,"	for i, dp := range dps {\n","	for i := range dps {\n		dp := dps[0]\n"))
bad("P16-skip-empty-payload","P16",(V,"	r := make([]DP, len(dps))\n	for i, dp := range dps {\n		r[i] = DP{","	r := make([]DP, 0, len(dps))\n	for _, dp := range dps {\n		if dp.Payload == nil {\n			continue\n		}\n		r = append(r, DP{"),(V,"			ExpireEnabled: dp.ExpireEnabled,\n		}\n	}\n	return r","			ExpireEnabled: dp.ExpireEnabled,\n		})\n	}\n	return r"))
bad("P16-reverse","P16",(V,"		r[i] = DP{","		r[len(dps)-1-i] = DP{"))
bad("P16-skip-last","P16",(V,"	for i, dp := range dps {\n","	for i, dp := range dps {\n		if i > 0 && i == len(dps)-1 {\n			break\n		}\n"))
bad("P16-store-strip","P16",(CE,"	c.addDataPoint(dp)\n	return true","	if !dp.ExpireEnabled {\n		dp.Payload = nil\n	}\n	c.addDataPoint(dp)\n	return true"))
bad("P16-lookup-strip","P16",(CE,"	for _, i := range indexes {\n		res = append(res, c.DataPoints[i])\n	}\n\n	// Secondary","	for _, i := range indexes {\n		if drain {\n			c.DataPoints[i].ExpireEnabled = false\n		}\n		res = append(res, c.DataPoints[i])\n	}\n\n	// Secondary"))
bad("P16-put-normalise","P16",(PD,"	for _, addr := range addrOpt {\n","	if dp.Expires.IsZero() {\n		dp.ExpireEnabled = false\n	}\n	for _, addr := range addrOpt {\n"))
bad("P16-utc","P16",(V,"		Expires:       dp.Expires,\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}","		Expires:       dp.Expires.Truncate(time.Hour),\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}"))
bad("P16-unexported","P16 P15",(DPF,"	Vec           []float64\n	Payload       []byte","	Vec           []float64\n	Payload       []byte\n	Extra func()"))
good("P16-append",(V,"	r := make([]DP, len(dps))\n	for i, dp := range dps {\n		r[i] = DP{","	r := make([]DP, 0, len(dps))\n	for _, dp := range dps {\n		r = append(r, DP{"),(V,"			ExpireEnabled: dp.ExpireEnabled,\n		}\n	}\n	return r","			ExpireEnabled: dp.ExpireEnabled,\n		})\n	}\n	return r"))
good("P16-index",(V,"	for i, dp := range dps {\n","	for i := 0; i < len(dps); i++ {\n		dp := dps[i]\n"))
good("P16-helper",(V,"		r[i] = DP{\n			Vec:           dp.Vec,\n			Payload:       dp.Payload,\n			Expires:       dp.Expires,\n			ExpireEnabled: dp.ExpireEnabled,\n		}\n	}\n	return r\n}","		r[i] = fromDataPoint(dp)\n	}\n	return r\n}\n\nfunc fromDataPoint(dp common.DataPoint) DP {\n	return DP{\n		Vec:           dp.Vec,\n		Payload:       dp.Payload,\n		Expires:       dp.Expires,\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}"))
good("P16-helper-ptr",(V,"		r[i] = DP{\n			Vec:           dp.Vec,\n			Payload:       dp.Payload,\n			Expires:       dp.Expires,\n			ExpireEnabled: dp.ExpireEnabled,\n		}\n	}\n	return r\n}","		r[i].fill(&dp)\n	}\n	return r\n}\n\nfunc (d *DP) fill(dp *common.DataPoint) {\n	d.Vec = dp.Vec\n	d.Payload = dp.Payload\n	d.Expires = dp.Expires\n	d.ExpireEnabled = dp.ExpireEnabled\n}"))
good("P16-conv",(V,"	return common.DataPoint{\n		Vec:           dp.Vec,\n		Payload:       dp.Payload,\n		Expires:       dp.Expires,\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}","	return common.DataPoint(*dp)\n}"))
good("P16-fieldwise",(V,"	return common.DataPoint{\n		Vec:           dp.Vec,\n		Payload:       dp.Payload,\n		Expires:       dp.Expires,\n		ExpireEnabled: dp.ExpireEnabled,\n	}\n}","	var r common.DataPoint\n	r.Payload, r.Vec = dp.Payload, dp.Vec\n	r.ExpireEnabled = dp.ExpireEnabled\n	r.Expires = dp.Expires\n	return r\n}"))
good("P16-opts-type",(H,"func (h *handler) putDataPoint(w http.ResponseWriter, r *http.Request) {\n	opts := struct {\n		Namespace string `json:\"namespace\"`\n		Accurate  bool   `json:\"accurate\"`\n		DP        DP     `json:\"dp\"`\n	}{}\n","type putOptions struct {\n	Namespace string `json:\"namespace\"`\n	Accurate  bool   `json:\"accurate\"`\n	DP        DP     `json:\"dp\"`\n}\n\nfunc (h *handler) putDataPoint(w http.ResponseWriter, r *http.Request) {\n	var opts putOptions\n"))
good("P16-noresp-nil",(H,"	var respConv []DP\n	if resp != nil {\n		respConv = DataPointsToDPs(resp)\n	}\n","	var respConv []DP\n	if len(resp) != 0 || resp != nil {\n		respConv = DataPointsToDPs(resp)\n	}\n"))
good("P16-appender",(GD,"		res = append(res, dps...)","		for _, dp := range dps {\n			res = append(res, dp)\n		}"))
