bad("P15-nearestvec-gt1", "P15", ("pkg/kmeans/rpc/server.go", "		if len(centroids) != 0 {\n			*r = centroids[0].Vec()", "		if len(centroids) > 1 {\n			*r = centroids[0].Vec()"))
