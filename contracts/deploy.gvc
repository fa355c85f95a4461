// Deployed client and servers: cmd/grpc, simulations/multi, lib/server.

pred sameinfo(a, b) := a.NumRows == b.NumRows && a.NumColumns == b.NumColumns && a.BlockSize == b.BlockSize && a.PIRType == b.PIRType && a.Merkle.ProofLen == b.Merkle.ProofLen && len(a.Merkle.Root) == len(b.Merkle.Root) && forall(x, 0, len(a.Merkle.Root), a.Merkle.Root[x] == b.Merkle.Root[x])

func cmd/grpc/client.equalDBInfo(info)
  prop C17
  ensures iff(result, forall(k, 0, len(info), sameinfo(info[0], info[k])))

func simulations/multi/client.equalDBInfo(info)
  prop C17
  ensures iff(result, forall(k, 0, len(info), sameinfo(info[0], info[k])))

func server.NewPIR(db, cores)
  prop C17
  fresh result
  ensures ref(result.db) == ref(db) && result.numServers == 0

func server.NewPIRTwo(db, cores)
  prop C17
  fresh result
  ensures ref(result.db) == ref(db) && result.numServers == 2

// the remote call: what connection c was asked last, and how often
assume proto.vPIRClient.Query(c, ctx, in, opts)
  modifies heap("G:asked", c.cc), heap("G:times", c.cc)
  ensures heap("G:asked", c.cc) == ref(in.Query) && heap("G:times", c.cc) == old(heap("G:times", c.cc)) + 1

func cmd/grpc/client.queryServer(ctx, conn, opts, query)
  prop C17
  panics true
  modifies heap("G:asked", conn), heap("G:times", conn)
  ensures heap("G:asked", conn) == ref(query) && heap("G:times", conn) == old(heap("G:times", conn)) + 1

func cmd/grpc/client/manager.server.query(s, ctx, query)
  prop C17
  panics true
  modifies heap("G:asked", s.conn), heap("G:times", s.conn)
  ensures heap("G:asked", s.conn) == ref(query) && heap("G:times", s.conn) == old(heap("G:times", s.conn)) + 1

func cmd/grpc/client/manager.Actor.RunQueries(a, queries)
  prop C17
  panics true
  requires len(queries) == len(a.servers)
  requires forall(j, 0, len(a.servers), forall(k, 0, len(a.servers), imp(j != k, ref(a.servers[j].conn) != ref(a.servers[k].conn))))
  inv [i iter]: forall(j, 0, i, heap("G:asked", a.servers[j].conn) == ref(queries[j]) && heap("G:times", a.servers[j].conn) == old(heap("G:times", a.servers[j].conn)) + 1)
  inv [i iter]: forall(j, i, len(a.servers), heap("G:times", a.servers[j].conn) == old(heap("G:times", a.servers[j].conn)))
  inv [i iter, c chan []byte]: sent(c) == i && received(c) == 0
  inv [q [][]byte, c chan []byte]: len(q) == received(c)
  modifies all G:asked, all G:times
  ensures len(result) == len(a.servers)
  ensures forall(j, 0, len(a.servers), heap("G:asked", a.servers[j].conn) == ref(queries[j]) && heap("G:times", a.servers[j].conn) == old(heap("G:times", a.servers[j].conn)) + 1)

// the connection of the j-th configured server
pred conn(lc, j) := ref(lc.connections[lc.config.Addresses[j]])

func cmd/grpc/client.localClient.runQueries(lc, queries)
  prop C17
  panics true
  requires len(lc.connections) <= len(lc.config.Addresses) && len(queries) == len(lc.connections)
  requires forall(j, 0, len(queries), forall(k, 0, len(queries), imp(j != k, conn(lc, j) != conn(lc, k))))
  inv [i iter]: forall(j, 0, i, heap("G:asked", lc.connections[lc.config.Addresses[j]]) == ref(queries[j]) && heap("G:times", lc.connections[lc.config.Addresses[j]]) == old(heap("G:times", lc.connections[lc.config.Addresses[j]])) + 1)
  inv [i iter]: forall(j, i, len(queries), heap("G:times", lc.connections[lc.config.Addresses[j]]) == old(heap("G:times", lc.connections[lc.config.Addresses[j]])))
  inv [i iter, c chan []byte]: sent(c) == i && received(c) == 0
  inv [q [][]byte, c chan []byte]: len(q) == received(c)
  modifies all G:asked, all G:times
  ensures len(result) == len(queries)
  ensures forall(j, 0, len(queries), heap("G:asked", lc.connections[lc.config.Addresses[j]]) == ref(queries[j]) && heap("G:times", lc.connections[lc.config.Addresses[j]]) == old(heap("G:times", lc.connections[lc.config.Addresses[j]])) + 1)

func simulations/multi/client.localClient.runQueries(lc, queries)
  prop C17
  panics true
  requires len(lc.connections) <= len(lc.config.Addresses) && len(queries) == len(lc.connections)
  requires forall(j, 0, len(queries), forall(k, 0, len(queries), imp(j != k, conn(lc, j) != conn(lc, k))))
  inv [i iter]: forall(j, 0, i, heap("G:asked", lc.connections[lc.config.Addresses[j]]) == ref(queries[j]) && heap("G:times", lc.connections[lc.config.Addresses[j]]) == old(heap("G:times", lc.connections[lc.config.Addresses[j]])) + 1)
  inv [i iter]: forall(j, i, len(queries), heap("G:times", lc.connections[lc.config.Addresses[j]]) == old(heap("G:times", lc.connections[lc.config.Addresses[j]])))
  inv [i iter, c chan []byte]: sent(c) == i && received(c) == 0
  inv [q [][]byte, c chan []byte]: len(q) == received(c)
  modifies all G:asked, all G:times
  ensures len(result) == len(queries)
  ensures forall(j, 0, len(queries), heap("G:asked", lc.connections[lc.config.Addresses[j]]) == ref(queries[j]) && heap("G:times", lc.connections[lc.config.Addresses[j]]) == old(heap("G:times", lc.connections[lc.config.Addresses[j]])) + 1)

func simulations/multi/client.queryServer(ctx, conn, opts, query)
  prop C17
  panics true
  modifies heap("G:asked", conn), heap("G:times", conn)
  ensures heap("G:asked", conn) == ref(query) && heap("G:times", conn) == old(heap("G:times", conn)) + 1

// what the server behind a connection announces
pred announced(d, c) := d.NumRows == uf("ann_rows", c) && d.NumColumns == uf("ann_cols", c) && d.BlockSize == uf("ann_block", c) && seq(d.PIRType) == ufseq("ann_type", c) && len(d.PIRType) == uf("ann_typelen", c) && d.Merkle.ProofLen == uf("ann_prooflen", c) && len(d.Merkle.Root) == uf("ann_rootlen", c) && forall(x, 0, len(d.Merkle.Root), d.Merkle.Root[x] == ufseq("ann_root", c)[x])

// the remote call
assume proto.vPIRClient.DatabaseInfo(c, ctx, in, opts)
  ensures imp(result1 == nil, ref(result) != 0 && result.NumRows == uf("ann_rows", ref(c.cc)) && result.NumColumns == uf("ann_cols", ref(c.cc)) && result.BlockLength == uf("ann_block", ref(c.cc)) && seq(result.PirType) == ufseq("ann_type", ref(c.cc)) && len(result.PirType) == uf("ann_typelen", ref(c.cc)) && result.ProofLen == uf("ann_prooflen", ref(c.cc)) && len(result.Root) == uf("ann_rootlen", ref(c.cc)) && forall(x, 0, len(result.Root), result.Root[x] == ufseq("ann_root", ref(c.cc))[x]))

func cmd/grpc/client/manager.server.getDBInfo(s, ctx)
  prop C17
  panics true
  ensures announced(result, ref(s.conn))

func cmd/grpc/client/manager.Actor.GetDBInfos(a)
  prop C17
  panics true
  requires len(a.servers) >= 1
  inv [i iter, c chan database.Info]: sent(c) == i && received(c) == 0
  inv [i iter, c chan database.Info]: forall(k, 0, i, announced(msg(c, k), ref(a.servers[k].conn)))
  inv [d []database.Info, c chan database.Info]: len(d) == received(c)
  inv [d []database.Info, c chan database.Info]: forall(k, 0, len(d), announced(d[k], ref(a.servers[k].conn)))
  ensures imp(result1 == nil, len(result) == len(a.servers) && forall(k, 0, len(a.servers), announced(result[k], ref(a.servers[k].conn)) && sameinfo(result[0], result[k])))

func cmd/grpc/client.dbInfo(ctx, conn, opts)
  prop C17
  panics true
  ensures announced(result, ref(conn))

func cmd/grpc/client.localClient.retrieveDBInfo(lc)
  prop C17
  requires len(lc.connections) >= 1
  panics true
  inv [i iter, r mapiter, c chan *database.Info]: sent(c) == i && received(c) == 0
  inv [i iter, r mapiter, c chan *database.Info]: forall(k, 0, i, announced(msg(c, k), ref(itval(r, k))))
  inv [d []*database.Info, c chan *database.Info]: len(d) == received(c)
  inv [d []*database.Info, r mapiter]: forall(k, 0, len(d), announced(d[k], ref(itval(r, k))), ref(itval(r, k)))
  modifies lc.dbInfo
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), lc.dbInfo.NumRows == uf("ann_rows", conn(lc, j)) && lc.dbInfo.NumColumns == uf("ann_cols", conn(lc, j))))
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), lc.dbInfo.BlockSize == uf("ann_block", conn(lc, j)) && lc.dbInfo.Merkle.ProofLen == uf("ann_prooflen", conn(lc, j))))
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), len(lc.dbInfo.Merkle.Root) == uf("ann_rootlen", conn(lc, j)) && len(lc.dbInfo.PIRType) == uf("ann_typelen", conn(lc, j))))
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), forall(x, 0, len(lc.dbInfo.Merkle.Root), lc.dbInfo.Merkle.Root[x] == ufseq("ann_root", conn(lc, j))[x])))

func simulations/multi/client.dbInfo(ctx, conn, opts)
  prop C17
  panics true
  ensures announced(result, ref(conn))

func simulations/multi/client.localClient.retrieveDBInfo(lc)
  prop C17
  requires len(lc.connections) >= 1
  panics true
  inv [i iter, r mapiter, c chan *database.Info]: sent(c) == i && received(c) == 0
  inv [i iter, r mapiter, c chan *database.Info]: forall(k, 0, i, announced(msg(c, k), ref(itval(r, k))))
  inv [d []*database.Info, c chan *database.Info]: len(d) == received(c)
  inv [d []*database.Info, r mapiter]: forall(k, 0, len(d), announced(d[k], ref(itval(r, k))), ref(itval(r, k)))
  modifies lc.dbInfo
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), lc.dbInfo.NumRows == uf("ann_rows", conn(lc, j)) && lc.dbInfo.NumColumns == uf("ann_cols", conn(lc, j))))
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), lc.dbInfo.BlockSize == uf("ann_block", conn(lc, j)) && lc.dbInfo.Merkle.ProofLen == uf("ann_prooflen", conn(lc, j))))
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), len(lc.dbInfo.Merkle.Root) == uf("ann_rootlen", conn(lc, j)) && len(lc.dbInfo.PIRType) == uf("ann_typelen", conn(lc, j))))
  ensures forall(j, 0, len(lc.config.Addresses), imp(has(lc.connections, lc.config.Addresses[j]), forall(x, 0, len(lc.dbInfo.Merkle.Root), lc.dbInfo.Merkle.Root[x] == ufseq("ann_root", conn(lc, j))[x])))

// an answer belongs to the query it was computed from
iface server.Server.AnswerBytes(s, q)
  fresh result
  ensures uf("query_of", ref(result)) == ref(q)

pred wrap(s, k) := msg(s.queryChan, k)

// one schedule: the queries wait in the queue, which is then closed
func cmd/grpc/server.vpirServer.startWorker(s)
  prop C17
  requires closed(s.queryChan) == 1 && received(s.queryChan) == 0
  requires forall(k, 0, sent(s.queryChan), ref(wrap(s, k).query) != 0)
  requires forall(k, 0, sent(s.queryChan), closed(wrap(s, k).answer) == 0 && closed(wrap(s, k).error) == 0 && sent(wrap(s, k).answer) == 0 && sent(wrap(s, k).error) == 0)
  requires forall(k, 0, sent(s.queryChan), ref(wrap(s, k).answer) != ref(s.queryChan) && ref(wrap(s, k).error) != ref(s.queryChan))
  requires forall(k, 0, sent(s.queryChan), forall(j, 0, sent(s.queryChan), ref(wrap(s, k).answer) != ref(wrap(s, j).error) && imp(j != k, ref(wrap(s, k).answer) != ref(wrap(s, j).answer) && ref(wrap(s, k).error) != ref(wrap(s, j).error))))
  modifies all chan
  inv [i iter]: received(s.queryChan) == i
  inv [i iter]: sent(s.queryChan) == old(sent(s.queryChan)) && closed(s.queryChan) == 1
  inv [i iter]: forall(k, 0, i, sent(wrap(s, k).answer) + sent(wrap(s, k).error) == 1)
  inv [i iter]: forall(k, i, sent(s.queryChan), sent(wrap(s, k).answer) == 0 && sent(wrap(s, k).error) == 0)
  inv [i iter]: forall(k, 0, i, imp(sent(wrap(s, k).answer) == 1, uf("query_of", ref(msg(wrap(s, k).answer, 0))) == ref(wrap(s, k).query.Query)))
  ensures forall(k, 0, sent(s.queryChan), sent(wrap(s, k).answer) + sent(wrap(s, k).error) == 1)
  ensures forall(k, 0, sent(s.queryChan), imp(sent(wrap(s, k).answer) == 1, uf("query_of", ref(msg(wrap(s, k).answer, 0))) == ref(wrap(s, k).query.Query)))

// the information of the database a server was made for
iface server.Server.DBInfo(s)
  ensures ref(result) != 0 && result.NumRows == uf("db_rows", id(s)) && result.NumColumns == uf("db_cols", id(s)) && result.BlockSize == uf("db_block", id(s)) && seq(result.PIRType) == ufseq("db_type", id(s)) && len(result.PIRType) == uf("db_typelen", id(s)) && result.Merkle.ProofLen == uf("db_prooflen", id(s)) && len(result.Merkle.Root) == uf("db_rootlen", id(s)) && forall(x, 0, len(result.Merkle.Root), result.Merkle.Root[x] == ufseq("db_root", id(s))[x])

// sizes of 2^32 and more are cut to 32 bits
func cmd/grpc/server.vpirServer.DatabaseInfo(s, ctx, r)
  prop C17
  ensures result1 == nil
  ensures result.NumRows == uf("db_rows", id(s.Server)) % pow2(32) && result.NumColumns == uf("db_cols", id(s.Server)) % pow2(32) && result.BlockLength == uf("db_block", id(s.Server)) % pow2(32) && result.ProofLen == uf("db_prooflen", id(s.Server)) % pow2(32)
  ensures seq(result.PirType) == ufseq("db_type", id(s.Server)) && len(result.PirType) == uf("db_typelen", id(s.Server))
  ensures len(result.Root) == uf("db_rootlen", id(s.Server)) && forall(x, 0, len(result.Root), result.Root[x] == ufseq("db_root", id(s.Server))[x])

func simulations/multi/server.vpirServer.Query(s, ctx, qr)
  prop C17
  requires ref(qr) != 0
  ensures imp(result1 == nil, uf("query_of", ref(result.Answer)) == ref(qr.Query))
