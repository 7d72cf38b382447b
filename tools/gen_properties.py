import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    P.append(d)
CE='pkg/kmeans/centroid/centroid.go'; CM='pkg/kmeans/centroidmanager/cmanager.go'; SV='pkg/kmeans/rpc/server.go'; CL='pkg/kmeans/rpc/client.go'; RP='pkg/kmeans/rpc/rpc.go'; SU='pkg/kmeans/rpc/serverutils.go'
KN='pkg/searchutils/knn.go'; MU='pkg/mathutils/vectools.go'; DI='pkg/mathutils/distance.go'; DPF='pkg/kmeans/common/datapoint.go'
ND='core/nodes/nodes.go'; NV='core/nodes/vecs.go'; GD='core/dps/getdps.go'; PD='core/dps/putdps.go'; DS='core/dps/dps.go'
AH='core/api/handler.go'; AC='core/api/conv.go'; AA='core/api/api.go'; EL='core/eventloop/el.go'; ET='core/eventloop/eltask.go'; EU='core/eventloop/eltaskutils.go'; EC='core/eventloop/cfg.go'; AR='pkg/arbiter/arbiter.go'

p('P01','Moving datapoints around neither loses nor duplicates one',
 'Every operation that relocates stored, unexpired datapoints (internal and network redistribution, splitting, merging, compaction, stealing whole centroids, and handing back a surplus of a draining lookup) leaves each of them stored at some node, once. A datapoint that no receiver takes goes back to where it came from, and nothing is taken out when there is nobody to give it to.',
 ['inputs','histories','fault_sequences'],'for every stored data, every amount, every receiver list and every receiver that refuses or cannot be reached',
 'Tests relocate a handful of datapoints between healthy receivers that always accept; they never have a receiver refuse, an address list that is empty, or a receiver that is down in the middle.',
 [CE,CM,SV,CL],[('put-back in Centroid.DistributeDataPoints',CE),('split/merge re-add loops',CM),('put-back loops of DistributeDataPointsFast/Accurate, distributeDP',SV),('StealCentroid',SV),('filter of NearestCentroids client',CL)],
 [('Centroid.DataPoints','stored datapoints',CE),('CentroidManager.Centroids','stored centroids',CM)],['LenDP RPC','KNNLookup RPC'])
p('P02','A write is acknowledged only if it was stored',
 'Adding a datapoint reports success (locally, over RPC, through the put helpers and as HTTP 200) only if a centroid of the addressed namespace actually took it. A refused datapoint is reported as refused and is not stored anywhere by that attempt.',
 ['inputs','fault_sequences','schedules'],'for every datapoint (expired, mismatching, first of its namespace), every node failure and every concurrent creation of the namespace',
 'Tests only add valid datapoints to healthy nodes; they do not look at the acknowledgement of refused ones.',
 [CE,CM,SV,CL,PD,AH],[('bool result of AddDataPoint at every layer',CM),('KMeansServer.AddDataPoint reply',SV),('putDataPoint',PD),('status code of the put handler',AH)],None,['AddDataPoint RPC reply','HTTP status of /api/dp/put'])
p('P03','Stored data is only touched under its own lock',
 'All access to the data of a namespace, to the namespace table and to the bookkeeping shared with stop functions is mutually exclusive, so that concurrent requests behave as if run one at a time. Nothing handed out of such a section (RPC replies included) still refers to data that another request can change.',
 ['schedules'],'for every interleaving of requests, background tasks and stop calls',
 'Tests issue requests one after another; data races need particular interleavings and -race only sees the ones that happen.',
 [RP,SV,EL,EC],[('CManagerSlot.Access / CManagerTable mutexes',RP),('copying of undrained centroids in the NearestCentroids endpoint',SV),('atomic stop flag',EL)],
 [('CManagerSlot.cManager','data of one namespace',RP),('CManagerTable.slots','namespace table',RP)],['go test -race','RPC replies'])
p('P04','Creating a namespace never discards an existing one',
 'When requests race to create the same namespace, exactly one instance becomes the namespace and whatever was acknowledged as stored in it stays there. Registering data under a name that is in use is refused, reported as refused, and leaves the existing data alone.',
 ['schedules','histories'],'for every number of concurrent first writes to, or steals into, one namespace',
 'The window lies between two critical sections; sequential tests create each namespace once.',
 [RP,SV],[('CManagerTable.AddSlot',RP),('KMeansServer.AddDataPoint, StealCentroid',SV)],[('CManagerTable.slots','namespace table',RP)],['Namespaces RPC','LenDP RPC'])
p('P05','No lock is held while waiting for the network or another lock',
 'A lock is released on every way out of the code that took it, and while one is held the node performs no network call, no sleep, no wait on other goroutines and takes no other lock of the store. Nodes that call each other (or themselves) during redistribution therefore cannot deadlock.',
 ['schedules','configurations'],'for every interleaving and every topology, including nodes that list themselves as receivers',
 'A deadlock needs two nodes to call each other at the same time, or an unusual return path; no test does either.',
 [RP,SV],[('Lock/Unlock pairs of CManagerSlot and CManagerTable',RP),('drain, release, then call pattern in the distribution endpoints',SV)],[('CManagerSlot.Mutex','per namespace lock',RP),('CManagerTable.Mutex','table lock',RP)],['RPC calls return'])
p('P06','Operations only ever touch the namespace they were given',
 'The namespace a user names is the one that is read, written, searched, redistributed, stolen from and reported at every node and every layer. Data never moves from one namespace to another, and calls that take no namespace (the list of namespaces, the metadata) change nothing in any of them.',
 ['inputs','histories'],'for every set of namespaces and every operation',
 'Nearly all tests use one namespace, where mixing two up cannot be seen.',
 [SV,CL,RP,ND,NV,GD,PD,AH,ET,EU],[('NameSpace field of every RPC argument struct',SV),('namespace of kmeansClient',CL),('addrNamespaceTable',EU)],None,['all RPC endpoints'])
p('P07','Expired datapoints are neither accepted nor served, others stay',
 'A datapoint is expired exactly if expiry is enabled for it and its expiry time has passed. Expired datapoints are refused on insertion and never returned by lookups or drains, and expiry removes expired datapoints only and all of them.',
 ['inputs','histories'],'for every mix of expired, unexpired and never-expiring datapoints in any order',
 'Tests expire one or two datapoints in one position with one method each.',
 [DPF,CE,CM],[('DataPoint.Expired',DPF),('dataPointVecGenerator, DrainUnordered, Expire',CE),('AddDataPoint guards',CE)],None,['Expire, KNNLookup, Drain RPCs'])
p('P08','A centroid only ever holds vectors of one dimension',
 'All datapoints of a centroid have the dimension of its vector; one with another dimension is refused. Comparing or combining vectors of different dimensions is reported as an error and never reads out of bounds.',
 ['inputs'],'for every pair of vectors of any length',
 'Tests use vectors of one or two dimensions that agree.',
 [CE,CM,MU,DI,KN],[('length check of Centroid.AddDataPoint',CE),('length checks of VecAdd, VecSub, VecMean, EuclideanDistance, CosineSimilarity',MU)],None,['AddDataPoint RPC'])
p('P09','Lookups only remove when asked to, and exactly what they return',
 'Without the drain option a lookup leaves every unexpired datapoint and centroid where it is. With it, and for every drain operation, the unexpired datapoints (or centroids) that leave the store are exactly those that are returned; the option reaches the nodes as given by the user.',
 ['inputs','histories'],'for every store, query, amount and value of the drain option',
 'Tests drain small stores where index shifts, surplus results and order do not show.',
 [CE,CM,SV,CL,GD,AH],[('index-sorted removal of Centroid.KNNLookup/DrainOrdered and CentroidManager.NearestCentroids',CM),('Drain fields',SV)],None,['KNNLookup, NearestCentroids, Drain RPCs'])
p('P10','Never more results than asked for',
 'A search, lookup, drain or multi-node query for n items returns at most n, and none for n below one.',
 ['inputs','configurations'],'for every n and every number of nodes, centroids and datapoints',
 'Tests ask for small positive n from one or two holders.',
 [KN,CE,CM,GD],[('fixed-size result list of KNNBrute',KN),('remaining amount k-len(res) passed down',CM),('portioning by centroidDataPointPortions',CM)],None,['KNNLookup, Drain RPCs','HTTP query'])
p('P11','Vectors handed to or out of the store are never modified in place',
 'A vector that was handed to the store, or handed out by it, keeps its numbers: the store replaces vectors instead of writing into shared ones. The vector helpers return fresh results and leave their operands alone.',
 ['inputs','histories','schedules'],'for every sequence of operations following the hand-over',
 'Tests rarely keep an input or a result and look at it again later; replies are encoded outside the lock, so in-place writes also become data races.',
 [MU,CE,CM],[('copying constructors',CE),('fresh result slices of the vec helpers',MU)],[('Centroid.vec, CentroidManager.vec','mean vectors',CE)],['Vec RPC'])
p('P12','The vector of a centroid is the mean of its datapoints',
 'After every operation that adds or removes datapoints, the vector of a non-empty centroid is the arithmetic mean of the vectors it holds (up to floating point rounding). That includes centroids received from another node.',
 ['inputs','histories'],'for every sequence of additions, removals, expirations, drains and compactions',
 'Tests check the vector after one or two additions or removals of chosen values.',
 [CE,MU],[('addDataPoint/rmDataPoint updates',CE),('VecMean in MoveVector',MU)],[('Centroid.vec','mean',CE)],['NearestCentroidVec RPC'])
p('P13','The vector of a manager follows its centroids',
 'After every operation of a namespace the vector advertised for it is the mean of the vectors of its centroids (up to rounding), whether centroids were changed, added, split, merged, stolen or removed. It never becomes NaN by removing the last one.',
 ['inputs','histories'],'for every sequence of operations',
 'Tests check the vector after single operations on two centroids; several bookkeeping paths are not checked at all.',
 [CM,SV],[('prepVecUpdate delta updates',CM),('MoveVector',CM)],[('CentroidManager.vec','mean of centroid vectors',CM)],['Vec RPC'])
p('P14','Numbers in a request cannot take a node down',
 'Amounts, ranges and limits supplied by a caller, however negative or huge, do not crash a node or make it allocate memory in proportion to them; indexes used on stored data are always within it.',
 ['inputs'],'for every integer in every request field',
 'Tests use small positive amounts; net/rpc does not recover panics, so one bad request would end the process.',
 [KN,CE,CM,SV,CL,GD],[('allocation sizes taken from stored data, not from requests',CE),('loop bounds on both the amount and the data',CE)],None,['all RPC endpoints','HTTP query'])
p('P15','Every remote call runs the operation it is named after, faithfully',
 'Each client method reaches the server operation of the same name with the caller\'s values in the matching fields, and returns the value that this operation produced on the addressed namespace. Argument and reply types agree on both sides, and every field they carry survives the wire.',
 ['inputs'],'for every client method and every argument value',
 'net/rpc binds methods by string and types at run time; tests call most methods with values where swapped or dropped fields do not show.',
 [CL,SV],[('kmeansClient methods',CL),('KMeansServer methods',SV)],None,['RPC calls'])
p('P16','Datapoints survive conversion and transport unchanged',
 'A datapoint put through the HTTP API comes back from a query with the same vector, payload, expiry time and expiry flag. Every conversion between the API, storage and wire representations carries every field over, for every element and in order.',
 ['inputs'],'for every datapoint and list of datapoints',
 'Tests compare vectors, and seldom payload or expiry, of one datapoint.',
 [AC,AH,DPF,PD,GD],[('DP.toDataPoint, DataPointsToDPs',AC),('json tags',AC)],None,['HTTP put/query'])
p('P17','The event loop performs each duty at its own interval until stopped',
 'Each maintenance duty runs in iterations that are a multiple of its own configured interval, with its own configured amounts, for all namespaces of the local node; any configured interval is safe and one over 1000 never runs. After stop no further duty is started and the loop ends.',
 ['configurations','schedules'],'for every configuration and every moment of stopping',
 'The event loop has no automated tests at all (its test file is a monitoring tool behind a build tag).',
 [EL,ET,EC],[('elStep, EventLoop',EL),('withSkip and the elt tasks',ET),('clamp, validate',EC)],[('EventLoopConfig.internal','iteration and stop flag',EC)],['RPC calls made by the loop'])
p('P18','Nearest means nearest, for each measure and rank',
 'The nearest-neighbour searches rank by descending similarity or ascending distance and the furthest-neighbour ones the other way round, comparing the query with each candidate by their own measure. The returned positions refer to the candidates in the order they were produced, also when some of them cannot be compared.',
 ['inputs'],'for every query, candidate list and k',
 'Tests search one list of comparable two-dimensional vectors per function.',
 [KN],[('KNNBrute, bubble',KN),('KNNCos, KFNCos, KNNEuc, KFNEuc',KN)],None,['KNNLookup RPC'])
p('P19','Best-fit selection matches vectors with the node they came from',
 'When nodes are ranked for a vector, every ranked address is the one whose own vector earned that rank, and addresses that failed to answer are left out. Queries and writes then go to the nodes in that order, to each in turn until the datapoint is stored or enough were found.',
 ['inputs','schedules','fault_sequences'],'for every order in which nodes answer, and every set of nodes that fail',
 'Tests run a few nodes on one machine that always answer, nearly always in the same order.',
 [ND,NV,SU,SV,GD,PD],[('fetchVecs results keep vec and addr together',NV),('bestFitNodes',ND),('intoAddrs/intoVecGenerator',SU)],None,['PutDataPoint/GetDataPoints helpers'])
p('P20','Fan-outs finish: one answer per node, nothing leaks',
 'When nodes are asked in parallel, every asked node contributes exactly one answer (or failure), the collector waits for exactly that many, and no goroutine stays blocked even if the answers are never collected. Every connection that was opened is closed.',
 ['schedules','fault_sequences','inputs'],'for every number of nodes, order of answers and failures',
 'A wrong count shows as a hang or a leak only for particular failures or lists.',
 [NV,SU,EU,CL,RP],[('fetchVecs/collect',NV),('fetchRemoteLenDPs',EU),('kmeansClient.client',CL),('StartListen',RP)],None,['goroutine and connection counts'])
p('P21','The HTTP API rejects malformed requests and reports outcomes',
 'A request whose body is not the expected JSON is answered with 400 and has no effect on any node. A put is answered with 200 only if it was stored and with 500 otherwise, a query with the datapoints it found, and each route serves its own operation with the options the user sent.',
 ['inputs','fault_sequences'],'for every request body and every outcome at the nodes',
 'Tests send well-formed requests to healthy nodes.',
 [AH,AA],[('tryUnpackRequestOptions',AH),('putDataPoint, queryDataPoint',AH)],None,['HTTP status and body'])
p('P22','Failures of a remote call are reported to the caller',
 'A client call that cannot reach its node, or that the node answers with an error, reports that error through the client\'s error and yields no success. An operation on a namespace that does not exist is answered with the namespace error by every endpoint that does not create it, and stealing reports ok only if no call failed.',
 ['fault_sequences','inputs'],'for every client method, endpoint and failure',
 'Tests exercise the failure of one or two methods.',
 [CL,SV,RP],[('kmeansClient.client error handling',CL),('handleNamespaceErr',SV),('StealCentroid result',SV)],None,['client error','RPC error'])
p('P23','Load balancing only pulls surplus from others to a needy local node',
 'Load balancing transfers data only towards the local node, only from other nodes, only while the local node is clearly below the average and the other would stay above it (unless it is the only one that has the namespace), and never asks for an amount of zero or less. What was moved counts for the next decision. Nodes that could not be asked are not counted as empty.',
 ['inputs','configurations','fault_sequences'],'for every distribution of data over nodes, and every set of unreachable nodes',
 'There is no automated test of load balancing.',
 [ET,EU],[('eltLoadBalancing guards',ET),('fetchRemoteLenDPs',EU)],None,['StealCentroids calls'])
p('P24','Splitting and merging act on exactly the centroids in range',
 'Split and merge requests act on centroids whose size lies strictly between the two given limits and on no others. A merge never merges a centroid with itself or the same one twice, and exactly the absorbed centroids disappear; a centroid goes on absorbing only as long as it is in range itself; a split keeps the old centroid and adds one new one.',
 ['inputs'],'for every set of centroid sizes and limits',
 'Tests use one or two centroids well inside or outside of the range.',
 [SV,CM],[('range predicates of SplitCentroids/MergeCentroids',SV),('delMarks of MergeCentroids',CM),('splitCentroid',CM)],None,['Meta RPC'])
p('P25','No result is poisoned by dividing by zero',
 'Neither an empty holder, nor a last removal, nor a zero vector, nor a network without data leads to a division by zero in the maintenance of vectors, in similarity or in load balancing.',
 ['inputs','histories'],'for every input and every state, including empty ones',
 'Each case needs one particular degenerate state; a NaN then silently poisons all later comparisons.',
 [CE,CM,DI,MU,ET],[('guards before divisions',CE)],None,['Vec RPC'])
p('P26','Agreement among arbiters means all of them agree',
 'The arbiter helpers report a uniform status only if every collected status equals it, and no error only if no collected error is set; an error that is reported belongs to the address it is reported with.',
 ['inputs'],'for every set of statuses and errors, in every iteration order',
 'Tests use sets where all members agree.',
 [AR],[('ArbErrs.CheckAll, ArbStats.UniformStatus',AR)],None,['return values'])
p('P27','The similarity measures are what they are named after',
 'Euclidean distance is the square root of the summed squared differences of all components and cosine similarity is the dot product of all components divided by both norms (zero if a norm is zero). The mean of vectors is the sum of all of them divided by their number.',
 ['inputs'],'for every pair or list of vectors, of every dimension',
 'Tests compare a few chosen one- or two-dimensional values, for which several wrong formulas agree.',
 [DI,MU],[('EuclideanDistance, CosineSimilarity, norm',DI),('VecMean',MU)],None,['return values'])
p('P28','Approximate search finds the true nearest neighbours often enough',
 'The datapoints that a query returns are, for the most part, those an exhaustive search over the whole network would return, and the share rises with the accurate variants.',
 ['inputs','histories'],'for every distribution of data and query',
 'Tests contain no recall measurement; the monitoring tool only prints one.',
 [GD,ND,CM],[('best-fit nodes and centroids',ND)],None,['HTTP query'])
p('P29','Redistribution converges to balanced, well-fitting placement',
 'With a fixed set of data, repeated maintenance eventually reaches a placement in which each datapoint sits with its best-fitting centroid and nodes hold comparable amounts.',
 ['histories','schedules'],'for every initial placement, given enough iterations',
 'Only watched by hand with the monitoring tool.',
 [ET,CM,SV],[('event loop tasks',ET)],None,['Meta RPC'])
p('P30','Lost or repeated messages do not duplicate or lose datapoints',
 'If the connection breaks between a remote node executing a call and its reply arriving, a datapoint or centroid in flight is still stored exactly once in the network.',
 ['fault_sequences'],'for every call and every point at which the connection can break',
 'Tests never break a connection during a call.',
 [CL,SV],[('none: calls are neither repeated nor deduplicated',CL)],None,['LenDP RPC'])
p('P31','A node runs as it is configured',
 'The service hands each setting to the part it is named after: the node listens at its own address, the web API at another and for the whole configured network, the event loop works for that node and network, and every namespace and each of its centroids gets the configured capacity, split limit and nearest and furthest search, which are opposite directions of the measure used everywhere else. A missing search function or network is refused, and the web API only runs with a listening node. A centroid that grows to the split limit is split in half, a smaller one is not.',
 ['configurations','inputs'],'for every configuration and every history of additions',
 'Tests never run the service: each wires its own parts with literal settings of its own.',
 ['cmd/service/service.go','cfg/cfg.go',CM,CE,RP,'core/api/api.go'],[('main, cmSpawner','cmd/service/service.go'),('default configuration','cfg/cfg.go'),('NewCentroidManager, newCentroid, AddDataPoint',CM),('NewKMeansServer, StartListen',RP),('Start','core/api/api.go')],None,['addresses listened on','Meta RPC'])
p('P32','Stopping a node ends its service',
 'Once a node was stopped it neither listens nor serves: every connection it was serving is closed and one that is accepted at that moment is closed without being served. Until then each accepted connection is served on its own. A node that cannot listen reports that and leaves nothing running.',
 ['schedules','fault_sequences'],'for every moment of stopping relative to the connections that are being opened, accepted and served',
 'Tests stop nodes that nobody is connecting to; the window between accepting and registering a connection is too short to hit.',
 [RP],[('StartListen: stop, serve, accept loop',RP)],None,['open connections after stop','return values'])
p('P33','Datapoints go where they fit best within a node',
 'A namespace puts a datapoint into the centroid that the search ranks first for its vector among all of its centroids, and makes a new centroid for it only if it has none. A centroid that gives datapoints away offers each one to the receiver that the search ranks first for the vector of that datapoint among all receivers, and a merge absorbs other centroids in the order of their nearness to the absorbing one.',
 ['inputs','histories'],'for every datapoint, set of centroids and set of receivers',
 'Tests add to or distribute among one or two centroids, where picking a fixed one or searching for the wrong vector often gives the same answer.',
 [CE,CM],[('AddDataPoint, MergeCentroids',CM),('DistributeDataPoints',CE)],None,['KNNLookup and Meta RPC'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,x['title']
print(len(P))
