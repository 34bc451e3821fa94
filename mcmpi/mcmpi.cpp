// The model-checking MPI: rank side (MPI_* functions) and scheduler side (explore).
#include "mpi.h"
#include "mcmpi.h"
#include "mc.h"
#include <complex>
#include <list>
#include <memory>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>

namespace mcmpi {
enum Op { ISEND = 1, IRECV, WAITALL, WAITANY, TESTALL, PROBE, IPROBE, COLL, RESULT, FATAL };
enum Kind { BARRIER = 1, BCAST, REDUCE, ALLREDUCE, SCAN, EXSCAN, GATHER, ALLGATHER, ALLTOALL };
static const char* kindName(int k) {
    static const char* n[] = {"?", "Barrier", "Bcast", "Reduce", "Allreduce", "Scan", "Exscan", "Gather", "Allgather", "Alltoall"};
    return n[k];
}

// ------------------------------------------------------------------ rank side
static int g_rank = 0, g_size = 1, g_fd = -1, g_comms = 10, g_nextReq = 1;
static int typeSize(MPI_Datatype t) { return t & 255; }
struct LocalReq {
    bool send = false;
    void* buf = nullptr;
    std::size_t bytes = 0;
    std::uint64_t hash = 0;
    int type = 0;
};
static std::map<int, LocalReq> g_reqs;
static std::map<int, MPI_User_function*> g_userOps;
static int g_nextOp = 100;

static void writeAll(int fd, const char* p, std::size_t n) {
    while (n) {
        ssize_t k = ::write(fd, p, n);
        if (k <= 0) _exit(66);
        p += k;
        n -= k;
    }
}
static void readAll(int fd, char* p, std::size_t n) {
    while (n) {
        ssize_t k = ::read(fd, p, n);
        if (k <= 0) _exit(66);
        p += k;
        n -= k;
    }
}
static void post(const Blob& b) {
    std::uint64_t n = b.s.size();
    std::string m((const char*)&n, 8);
    m += b.s;
    writeAll(g_fd, m.data(), m.size());
}
static Blob answer() {
    std::uint64_t n;
    readAll(g_fd, (char*)&n, 8);
    std::string s(n, '\0');
    readAll(g_fd, &s[0], n);
    return Blob(s);
}
[[noreturn]] static void fatal(const std::string& msg) {
    Blob b;
    b.i(FATAL);
    b.str(msg);
    post(b);
    _exit(67);
}
int rank() { return g_rank; }
static unsigned char poisonByte(std::size_t i) { return (unsigned char)(0xd3 + 7 * i); }

static std::vector<std::string> collective(int kind, int comm, int root, int op, int type, long count,
                                           const std::vector<std::string>& chunks) {
    if (g_fd < 0) {  // a lone process
        if (kind == EXSCAN) return {};
        return chunks;
    }
    Blob b;
    b.i(COLL);
    b.i(kind);
    b.i(comm);
    b.i(root);
    b.i(op);
    b.i(op >= 100 ? (std::int64_t)(void*)g_userOps[op] : 0);
    b.i(type);
    b.i(count);
    b.i(chunks.size());
    for (auto& c : chunks) b.str(c);
    post(b);
    Blob a = answer();
    std::vector<std::string> r(a.gi());
    for (auto& c : r) c = a.gstr();
    return r;
}
static std::string bytesOf(const void* p, long n, int type) {
    return n > 0 ? std::string((const char*)p, (std::size_t)n * typeSize(type)) : std::string();
}
static void place(void* to, long n, int type, const std::string& s, const char* what) {
    if ((long)s.size() > n * typeSize(type))
        fatal(std::string(what) + ": received data is larger than the receive buffer");
    if (!s.empty()) std::memcpy(to, s.data(), s.size());
}
}  // namespace mcmpi
using namespace mcmpi;

int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int r, int* p) {
    if (p) *p = r;
    return 0;
}
int MPI_Initialized(int* f) {
    *f = 1;
    return 0;
}
int MPI_Finalized(int* f) {
    *f = 0;
    return 0;
}
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int c) {
    if (g_fd >= 0) fatal("MPI_Abort called");
    _exit(c);
}
double MPI_Wtime() { return 0; }
int MPI_Comm_dup(MPI_Comm, MPI_Comm* c) {
    *c = ++g_comms;
    return 0;
}
int MPI_Comm_free(MPI_Comm* c) {
    *c = 0;
    return 0;
}
int MPI_Comm_rank(MPI_Comm c, int* r) {
    *r = c == MPI_COMM_SELF ? 0 : g_rank;
    return 0;
}
int MPI_Comm_size(MPI_Comm c, int* r) {
    *r = c == MPI_COMM_SELF ? 1 : g_size;
    return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Type_match_size(int c, int s, MPI_Datatype* t) {
    *t = c * 256 + s;
    return 0;
}
int MPI_Type_size(MPI_Datatype t, int* s) {
    *s = typeSize(t);
    return 0;
}
int MPI_Op_create(MPI_User_function* f, int, MPI_Op* op) {
    *op = g_nextOp++;
    g_userOps[*op] = f;
    return 0;
}
int MPI_Op_free(MPI_Op* op) {
    *op = 0;
    return 0;
}
int MPI_Isend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* r) {
    if (count < 0) fatal("MPI_Isend: negative count");
    if (dest == MPI_PROC_NULL) {
        *r = 0;
        return 0;
    }
    if (dest < 0 || dest >= g_size) fatal("MPI_Isend: destination out of range");
    if (tag < 0 || tag > 0x7fffffff) fatal("MPI_Isend: invalid tag");
    LocalReq q;
    q.send = true;
    q.buf = (void*)buf;
    q.bytes = (std::size_t)count * typeSize(t);
    q.hash = mc::hashBytes(buf, q.bytes);
    q.type = t;
    int id = g_nextReq++;
    g_reqs[id] = q;
    Blob b;
    b.i(ISEND);
    b.i(id);
    b.i(dest);
    b.i(tag);
    b.i(c);
    b.i(t);
    b.str(std::string((const char*)buf, q.bytes));
    post(b);
    *r = id;
    return 0;
}
int MPI_Issend(const void* buf, int count, MPI_Datatype t, int dest, int tag, MPI_Comm c, MPI_Request* r) {
    return MPI_Isend(buf, count, t, dest, tag, c, r);
}
int MPI_Irecv(void* buf, int count, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request* r) {
    if (count < 0) fatal("MPI_Irecv: negative count");
    if (src == MPI_PROC_NULL) {
        *r = 0;
        return 0;
    }
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= g_size)) fatal("MPI_Irecv: source out of range");
    LocalReq q;
    q.buf = buf;
    q.bytes = (std::size_t)count * typeSize(t);
    q.type = t;
    for (std::size_t i = 0; i < q.bytes; ++i) ((unsigned char*)buf)[i] = poisonByte(i);
    int id = g_nextReq++;
    g_reqs[id] = q;
    Blob b;
    b.i(IRECV);
    b.i(id);
    b.i(src);
    b.i(tag);
    b.i(c);
    b.i(t);
    b.i(q.bytes);
    post(b);
    *r = id;
    return 0;
}
static int finishRequests(int op, int n, MPI_Request* rs, int* flagOrIndex, MPI_Status* st, bool array) {
    std::vector<int> ids;
    for (int i = 0; i < n; ++i)
        if (rs[i]) {
            if (!g_reqs.count(rs[i])) fatal("waiting for an unknown request");
            ids.push_back(i);
        }
    if (ids.empty()) {
        if (flagOrIndex) *flagOrIndex = op == WAITANY ? MPI_UNDEFINED : 1;
        return 0;
    }
    Blob b;
    b.i(op);
    b.i(ids.size());
    for (int i : ids) b.i(rs[i]);
    post(b);
    Blob a = answer();
    long flag = a.gi();  // test: 0/1; waitany: position in ids; waitall: 1
    if (op == TESTALL && !flag) {
        *flagOrIndex = 0;
        return 0;
    }
    std::vector<int> done = ids;
    if (op == WAITANY) {
        done = {ids[flag]};
        *flagOrIndex = ids[flag];
    }
    if (op == TESTALL) *flagOrIndex = 1;
    for (int i : done) {
        LocalReq q = g_reqs[rs[i]];
        g_reqs.erase(rs[i]);
        rs[i] = 0;
        int src = a.gi(), tag = a.gi();
        std::string data = a.gstr();
        if (q.send) {
            if (mc::hashBytes(q.buf, q.bytes) != q.hash)
                fatal("send buffer was modified before the send completed (the receiver may get either value)");
        } else {
            for (std::size_t k = 0; k < q.bytes; ++k)
                if (((unsigned char*)q.buf)[k] != poisonByte(k))
                    fatal("receive buffer was written before the receive completed");
            if (data.size() > q.bytes) fatal("received message is longer than the receive buffer");
            std::memcpy(q.buf, data.data(), data.size());
        }
        if (st) {
            MPI_Status& s = array ? st[i] : *st;
            s.MPI_SOURCE = src;
            s.MPI_TAG = tag;
            s.MPI_ERROR = 0;
            s.bytes_ = data.size();
        }
    }
    return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* s) { return finishRequests(WAITALL, 1, r, nullptr, s, false); }
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) { return finishRequests(WAITALL, n, r, nullptr, s, true); }
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* s) { return finishRequests(WAITANY, n, r, idx, s, false); }
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) { return finishRequests(TESTALL, 1, r, f, s, false); }
int MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* s) { return finishRequests(TESTALL, n, r, f, s, true); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
    MPI_Request r;
    MPI_Isend(b, n, t, d, tag, c, &r);
    return MPI_Wait(&r, nullptr);
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { return MPI_Send(b, n, t, d, tag, c); }
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) {
    MPI_Request r;
    MPI_Irecv(b, n, t, s, tag, c, &r);
    return MPI_Wait(&r, st);
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype stp, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s,
                 int rtag, MPI_Comm c, MPI_Status* st) {
    MPI_Request r[2];
    MPI_Irecv(rb, rn, rt, s, rtag, c, &r[0]);
    MPI_Isend(sb, sn, stp, d, stag, c, &r[1]);
    MPI_Status x[2];
    MPI_Waitall(2, r, x);
    if (st) *st = x[0];
    return 0;
}
static int probe(int op, int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
    Blob b;
    b.i(op);
    b.i(src);
    b.i(tag);
    b.i(c);
    post(b);
    Blob a = answer();
    int f = a.gi();
    if (flag) *flag = f;
    if (!f) return 0;
    int s = a.gi(), t = a.gi(), n = a.gi();
    if (st) {
        st->MPI_SOURCE = s;
        st->MPI_TAG = t;
        st->MPI_ERROR = 0;
        st->bytes_ = n;
    }
    return 0;
}
int MPI_Probe(int s, int t, MPI_Comm c, MPI_Status* st) { return probe(PROBE, s, t, c, nullptr, st); }
int MPI_Iprobe(int s, int t, MPI_Comm c, int* f, MPI_Status* st) { return probe(IPROBE, s, t, c, f, st); }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) {
    *n = (typeSize(t) && s->bytes_ % typeSize(t) == 0) ? s->bytes_ / typeSize(t) : MPI_UNDEFINED;
    return 0;
}
int MPI_Barrier(MPI_Comm c) {
    collective(BARRIER, c, 0, 0, 0, 0, {});
    return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    auto r = collective(BCAST, c, root, 0, t, n, {g_rank == root ? bytesOf(b, n, t) : std::string()});
    if (g_rank != root) place(b, n, t, r.at(0), "MPI_Bcast");
    return 0;
}
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) {
    auto x = collective(REDUCE, c, root, op, t, n, {bytesOf(s == MPI_IN_PLACE ? r : s, n, t)});
    if (g_rank == root) place(r, n, t, x.at(0), "MPI_Reduce");
    return 0;
}
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto x = collective(ALLREDUCE, c, 0, op, t, n, {bytesOf(s == MPI_IN_PLACE ? r : s, n, t)});
    place(r, n, t, x.at(0), "MPI_Allreduce");
    return 0;
}
int MPI_Scan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto x = collective(SCAN, c, 0, op, t, n, {bytesOf(s == MPI_IN_PLACE ? r : s, n, t)});
    place(r, n, t, x.at(0), "MPI_Scan");
    return 0;
}
int MPI_Exscan(const void* s, void* r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
    auto x = collective(EXSCAN, c, 0, op, t, n, {bytesOf(s == MPI_IN_PLACE ? r : s, n, t)});
    if (g_rank) place(r, n, t, x.at(0), "MPI_Exscan");
    return 0;
}
static int gatherLike(int kind, const void* s, int sn, MPI_Datatype st, void* r, const int* counts, const int* displs,
                      int fixed, MPI_Datatype rt, int root, MPI_Comm c) {
    auto cnt = [&](int i) { return counts ? counts[i] : fixed; };
    auto dis = [&](int i) { return (long)(displs ? displs[i] : i * fixed); };
    std::string mine = s == MPI_IN_PLACE ? bytesOf((char*)r + dis(g_rank) * typeSize(rt), cnt(g_rank), rt) : bytesOf(s, sn, st);
    auto x = collective(kind, c, root, 0, s == MPI_IN_PLACE ? rt : st, -1, {mine});
    if (kind == ALLGATHER || g_rank == root)
        for (int i = 0; i < g_size; ++i) {
            if ((long)x.at(i).size() != (long)cnt(i) * typeSize(rt)) fatal("gather: contribution has another size than the receiver expects");
            place((char*)r + dis(i) * typeSize(rt), cnt(i), rt, x.at(i), "gather");
        }
    return 0;
}
int MPI_Gather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    return gatherLike(GATHER, s, sn, st, r, nullptr, nullptr, rn, rt, root, c);
}
int MPI_Gatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cn, const int* d, MPI_Datatype rt, int root,
                MPI_Comm c) {
    return gatherLike(GATHER, s, sn, st, r, cn, d, 0, rt, root, c);
}
int MPI_Allgather(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
    return gatherLike(ALLGATHER, s, sn, st, r, nullptr, nullptr, rn, rt, 0, c);
}
int MPI_Allgatherv(const void* s, int sn, MPI_Datatype st, void* r, const int* cn, const int* d, MPI_Datatype rt, MPI_Comm c) {
    return gatherLike(ALLGATHER, s, sn, st, r, cn, d, 0, rt, 0, c);
}
static int a2a(const void* s, const int* sc, const int* sd, int sf, MPI_Datatype st, void* r, const int* rc, const int* rd,
               int rf, MPI_Datatype rt, MPI_Comm c) {
    std::vector<std::string> ch;
    for (int i = 0; i < g_size; ++i) {
        if (s == MPI_IN_PLACE)
            ch.push_back(bytesOf((char*)r + (long)(rc ? rd[i] : i * rf) * typeSize(rt), rc ? rc[i] : rf, rt));
        else
            ch.push_back(bytesOf((const char*)s + (long)(sc ? sd[i] : i * sf) * typeSize(st), sc ? sc[i] : sf, st));
    }
    auto x = collective(ALLTOALL, c, 0, 0, rt, -1, ch);
    for (int i = 0; i < g_size; ++i) {
        long n = rc ? rc[i] : rf;
        if ((long)x.at(i).size() != n * typeSize(rt)) fatal("alltoall: contribution has another size than the receiver expects");
        place((char*)r + (long)(rc ? rd[i] : i * rf) * typeSize(rt), n, rt, x.at(i), "alltoall");
    }
    return 0;
}
int MPI_Alltoall(const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c) {
    return a2a(s, nullptr, nullptr, sn, st, r, nullptr, nullptr, rn, rt, c);
}
int MPI_Alltoallv(const void* s, const int* sc, const int* sd, MPI_Datatype st, void* r, const int* rc, const int* rd,
                  MPI_Datatype rt, MPI_Comm c) {
    return a2a(s, sc, sd, 0, st, r, rc, rd, 0, rt, c);
}

// ------------------------------------------------------------------ scheduler side
namespace mcmpi {
typedef std::vector<int> VC;
static void joinVC(VC& a, const VC& b) {
    for (std::size_t i = 0; i < a.size(); ++i) a[i] = std::max(a[i], b[i]);
}
template <class T>
static void combineT(T* in, T* inout, std::size_t n, int op) {
    for (std::size_t i = 0; i < n; ++i) {
        T a = in[i], b = inout[i];
        switch (op) {
            case MPI_SUM: inout[i] = a + b; break;
            case MPI_PROD: inout[i] = a * b; break;
            case MPI_MAX: inout[i] = a > b ? a : b; break;
            case MPI_MIN: inout[i] = a < b ? a : b; break;
            case MPI_LOR: inout[i] = (a != T(0)) || (b != T(0)); break;
            case MPI_LAND: inout[i] = (a != T(0)) && (b != T(0)); break;
            case MPI_LXOR: inout[i] = (a != T(0)) != (b != T(0)); break;
            default: throw mc::Violation{"unsupported reduction operation"};
        }
    }
}
template <class T>
static void combineI(T* in, T* inout, std::size_t n, int op) {
    if (op == MPI_BOR)
        for (std::size_t i = 0; i < n; ++i) inout[i] |= in[i];
    else if (op == MPI_BAND)
        for (std::size_t i = 0; i < n; ++i) inout[i] &= in[i];
    else
        combineT(in, inout, n, op);
}
static void combine(std::string in, std::string& inout, int type, int op, std::int64_t fn) {
    if (in.size() != inout.size()) throw mc::Violation{"reduction over buffers of different size"};
    int sz = typeSize(type);
    if (!sz) throw mc::Violation{"reduction over a null datatype"};
    int n = in.size() / sz;
    void *a = &in[0], *b = &inout[0];
    if (op >= 100) {
        MPI_Datatype t = type;
        ((MPI_User_function*)(void*)fn)(a, b, &n, &t);
        return;
    }
    switch (type / 256 * 100 + sz) {
        case 104: combineT((float*)a, (float*)b, n, op); return;
        case 108: combineT((double*)a, (double*)b, n, op); return;
        case 116: combineT((long double*)a, (long double*)b, n, op); return;
        case 201: combineI((signed char*)a, (signed char*)b, n, op); return;
        case 202: combineI((std::int16_t*)a, (std::int16_t*)b, n, op); return;
        case 204: combineI((std::int32_t*)a, (std::int32_t*)b, n, op); return;
        case 208: combineI((std::int64_t*)a, (std::int64_t*)b, n, op); return;
        case 401: case 601: combineI((unsigned char*)a, (unsigned char*)b, n, op); return;
        case 402: combineI((std::uint16_t*)a, (std::uint16_t*)b, n, op); return;
        case 404: combineI((std::uint32_t*)a, (std::uint32_t*)b, n, op); return;
        case 408: combineI((std::uint64_t*)a, (std::uint64_t*)b, n, op); return;
        case 308:
        case 316:
            if (op == MPI_SUM) {
                if (sz == 16)
                    for (int i = 0; i < n; ++i) ((std::complex<double>*)b)[i] += ((std::complex<double>*)a)[i];
                else
                    for (int i = 0; i < n; ++i) ((std::complex<float>*)b)[i] += ((std::complex<float>*)a)[i];
                return;
            }
    }
    throw mc::Violation{"unsupported reduction type or operation"};
}

struct Msg {
    int src, dst, comm, tag, type, sreq;
    std::string data;
    VC vc;
    bool matched = false;
    int matchedAt = 1 << 30;
    VC recvVC;
};
struct Recv {
    int rank, req, src, tag, comm, type;
    long max;
    bool wildcard = false;
    Msg* m = nullptr;
    VC vc;
};
struct Coll {
    int kind, root, op, type;
    std::int64_t fn;
    long count;
    std::map<int, std::vector<std::string>> in;
    std::map<int, VC> vc;
    std::map<int, std::int64_t> fns;
};
struct Rank {
    int fd = -1;
    pid_t pid = -1;
    std::string buf;
    bool blocked = false, finished = false;
    int op = 0;  // the blocking call
    std::vector<int> reqs;
    int psrc = 0, ptag = 0, pcomm = 0;
    int ckind = 0, ccomm = 0, cseq = 0;
    std::map<int, int> collSeq;
    std::map<int, std::pair<bool, void*>> req;  // id -> (send, Msg*/Recv*)
    std::vector<Recv*> posted;
    VC vc;
    std::string result;
    int wildcards = 0;
    long spins = 0;
};
struct Decision {
    int rank, ord, chosen, clock, time, tag, comm;
    VC vc;
};
typedef std::map<std::pair<int, int>, int> Forced;

struct Run {
    int P;
    const Options& o;
    Forced forced;
    std::vector<Rank> R;
    std::list<Msg> msgs;
    std::list<Recv> recvs;
    std::map<std::pair<int, int>, Coll> colls;
    std::vector<Decision> decisions;
    std::uint64_t transitions = 0;
    int now = 0;
    bool diverged = false;

    Run(int p, const Options& op, const Forced& f) : P(p), o(op), forced(f), R(p) {}
    ~Run() {
        for (auto& r : R) {
            if (r.fd >= 0) ::close(r.fd);
            if (r.pid > 0) {
                kill(r.pid, SIGKILL);
                waitpid(r.pid, nullptr, 0);
            }
        }
    }
    std::string schedule() const {
        std::ostringstream s;
        s << "schedule{";
        for (auto& d : decisions) s << " rank" << d.rank << "#" << d.ord << "<-" << d.chosen;
        s << " } P=" << P << " mode=" << o.mode;
        return s.str();
    }
    [[noreturn]] void bad(const std::string& m) { throw mc::Violation{m + " [" + schedule() + "]"}; }

    void start(const std::function<std::string(int)>& body) {
        std::cout.flush();
        std::cerr.flush();
        for (int i = 0; i < P; ++i) {
            int sv[2];
            if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) std::_Exit(71);
            pid_t pid = fork();
            if (pid < 0) std::_Exit(71);
            if (pid == 0) {
                ::close(sv[0]);
                for (int k = 0; k < i; ++k) ::close(R[k].fd);
                g_fd = sv[1];
                g_rank = i;
                g_size = P;
                mc::S().status = nullptr;
                alarm(o.rankSeconds);
                Blob b;
                try {
                    std::string res = body(i);
                    b.i(RESULT);
                    b.str(res);
                    b.i(g_reqs.size());
                } catch (mc::Violation& v) {
                    b = Blob();
                    b.i(FATAL);
                    b.str(v.msg);
                } catch (mc::Fatal& v) {
                    b = Blob();
                    b.i(FATAL);
                    b.str("library reported a fatal error: " + v.msg);
                } catch (std::exception& v) {
                    b = Blob();
                    b.i(FATAL);
                    b.str(std::string("unexpected exception: ") + v.what());
                }
                post(b);
                _exit(0);
            }
            ::close(sv[1]);
            R[i].fd = sv[0];
            R[i].pid = pid;
            R[i].vc.assign(P, 0);
        }
    }
    void reply(int r, const Blob& b) {
        std::uint64_t n = b.s.size();
        std::string m((const char*)&n, 8);
        m += b.s;
        const char* p = m.data();
        std::size_t k = m.size();
        while (k) {
            ssize_t w = ::send(R[r].fd, p, k, MSG_NOSIGNAL);
            if (w <= 0) bad(mc::str("rank ", r, " died"));
            p += w;
            k -= w;
        }
        R[r].blocked = false;
    }
    void handle(int r, Blob b) {
        ++transitions;
        Rank& k = R[r];
        int op = b.gi();
        switch (op) {
            case ISEND: {
                int id = b.gi();
                Msg m;
                m.src = r;
                m.sreq = id;
                m.dst = b.gi();
                m.tag = b.gi();
                m.comm = b.gi();
                m.type = b.gi();
                m.data = b.gstr();
                ++k.vc[r];
                m.vc = k.vc;
                msgs.push_back(m);
                k.req[id] = {true, &msgs.back()};
                break;
            }
            case IRECV: {
                int id = b.gi();
                Recv v;
                v.rank = r;
                v.req = id;
                v.src = b.gi();
                v.tag = b.gi();
                v.comm = b.gi();
                v.type = b.gi();
                v.max = b.gi();
                v.wildcard = v.src == MPI_ANY_SOURCE;
                v.vc = k.vc;
                recvs.push_back(v);
                k.req[id] = {false, &recvs.back()};
                k.posted.push_back(&recvs.back());
                break;
            }
            case WAITALL:
            case WAITANY:
            case TESTALL: {
                k.op = op;
                k.reqs.resize(b.gi());
                for (auto& x : k.reqs) x = b.gi();
                k.blocked = true;
                break;
            }
            case PROBE:
            case IPROBE:
                k.op = op;
                k.psrc = b.gi();
                k.ptag = b.gi();
                k.pcomm = b.gi();
                k.blocked = true;
                break;
            case COLL: {
                k.op = op;
                k.ckind = b.gi();
                k.ccomm = b.gi();
                k.cseq = k.collSeq[k.ccomm]++;
                int root = b.gi(), cop = b.gi();
                std::int64_t fn = b.gi();
                int type = b.gi();
                long count = b.gi();
                auto it = colls.find({k.ccomm, k.cseq});
                if (it == colls.end()) {
                    Coll c;
                    c.kind = k.ckind;
                    c.root = root;
                    c.op = cop;
                    c.fn = fn;
                    c.type = type;
                    c.count = count;
                    it = colls.emplace(std::make_pair(k.ccomm, k.cseq), c).first;
                }
                Coll& c = it->second;
                if (c.kind != k.ckind || c.root != root || c.op != cop || c.count != count ||
                    (c.type != type && (c.count >= 0 || typeSize(c.type) != typeSize(type))))
                    bad(mc::str("ranks disagree about collective number ", k.cseq, ": rank ", r, " calls ", kindName(k.ckind), " (root ",
                                root, ", count ", count, ", type ", type, ", op ", cop, ") while another called ", kindName(c.kind), " (root ",
                                c.root, ", count ", c.count, ", type ", c.type, ", op ", c.op, ")"));
                std::vector<std::string> ch(b.gi());
                for (auto& x : ch) x = b.gstr();
                ++k.vc[r];
                c.in[r] = ch;
                c.vc[r] = k.vc;
                k.blocked = true;
                break;
            }
            case RESULT: {
                k.result = b.gstr();
                if (b.gi()) bad(mc::str("rank ", r, " ends with requests it never waited for"));
                k.finished = true;
                break;
            }
            case FATAL:
                bad(mc::str("rank ", r, ": ", b.gstr()));
            default:
                std::cerr << "mcmpi protocol error\n";
                std::_Exit(71);
        }
    }
    void gather() {
        while (true) {
            std::vector<pollfd> pf;
            std::vector<int> who;
            for (int i = 0; i < P; ++i)
                if (!R[i].blocked && !R[i].finished) {
                    pf.push_back({R[i].fd, POLLIN, 0});
                    who.push_back(i);
                }
            if (pf.empty()) return;
            if (poll(pf.data(), pf.size(), -1) < 0) continue;
            // lowest rank first; the order in which ranks are served has no influence on the outcome
            for (std::size_t q = 0; q < pf.size(); ++q)
                if (pf[q].revents) {
                    Rank& k = R[who[q]];
                    char tmp[65536];
                    ssize_t n = ::read(k.fd, tmp, sizeof tmp);
                    if (n <= 0) {
                        int st = 0;
                        waitpid(k.pid, &st, 0);
                        k.pid = -1;
                        int code = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st) - 100;
                        if (code == SIGALRM) bad(mc::str("rank ", who[q], " did not finish (endless computation)"));
                        bad(mc::str("rank ", who[q], " crashed (signal ", code, ")"));
                    }
                    k.buf.append(tmp, n);
                    while (k.buf.size() >= 8) {
                        std::uint64_t len;
                        std::memcpy(&len, k.buf.data(), 8);
                        if (k.buf.size() < 8 + len) break;
                        Blob b(k.buf.substr(8, len));
                        k.buf.erase(0, 8 + len);
                        handle(who[q], b);
                    }
                }
        }
    }
    static bool tagOk(int want, int have) { return want == MPI_ANY_TAG || want == have; }
    Msg* first(int dst, int src, int tag, int comm) {
        for (auto& m : msgs)
            if (!m.matched && m.dst == dst && m.src == src && m.comm == comm && tagOk(tag, m.tag)) return &m;
        return nullptr;
    }
    void matchTo(Recv* v, Msg* m) {
        v->m = m;
        m->matched = true;
        m->matchedAt = now;
        m->recvVC = v->vc;
        if (v->type != m->type && typeSize(v->type) != typeSize(m->type))
            bad(mc::str("rank ", v->rank, " receives data of type ", v->type, " that was sent as type ", m->type));
    }
    void match() {
        for (int r = 0; r < P; ++r) {
            std::vector<Recv*> open;
            std::vector<Recv*> blockedBy;
            for (Recv* v : R[r].posted) {
                if (v->m) continue;
                bool ok = true;
                for (Recv* w : blockedBy)
                    if (w->comm == v->comm && (w->tag == v->tag || w->tag == MPI_ANY_TAG || v->tag == MPI_ANY_TAG)) ok = false;
                if (v->wildcard) {
                    blockedBy.push_back(v);
                } else if (ok) {
                    Msg* m = first(r, v->src, v->tag, v->comm);
                    if (m) matchTo(v, m);
                }
                if (!v->m) open.push_back(v);
            }
            R[r].posted = open;
        }
    }
    bool done(int r, int id) {
        auto& q = R[r].req.at(id);
        if (q.first) return o.mode == 0 || ((Msg*)q.second)->matched;
        return ((Recv*)q.second)->m != nullptr;
    }
    void addRequest(int r, int id, Blob& b) {
        auto q = R[r].req.at(id);
        R[r].req.erase(id);
        if (q.first) {
            b.i(0);
            b.i(0);
            b.str("");
            Msg* m = (Msg*)q.second;
            if (o.mode == 1) joinVC(R[r].vc, m->recvVC);
        } else {
            Recv* v = (Recv*)q.second;
            b.i(v->m->src);
            b.i(v->m->tag);
            b.str(v->m->data);
            joinVC(R[r].vc, v->m->vc);
        }
    }
    bool completeColl(int r) {
        Rank& k = R[r];
        Coll& c = colls[{k.ccomm, k.cseq}];
        bool all = (int)c.in.size() == P;
        bool rooted = false, need = true;  // need: wait for all
        if (o.mode == 0) {
            if (c.kind == BCAST) {
                rooted = true;
                need = false;
                if (r != c.root && !c.in.count(c.root)) return false;
            }
            if ((c.kind == REDUCE || c.kind == GATHER) && r != c.root) need = false;
        }
        if (need && !all) return false;
        if (need)
            for (auto& x : c.vc) joinVC(k.vc, x.second);
        else if (rooted && c.vc.count(c.root))
            joinVC(k.vc, c.vc[c.root]);
        Blob b;
        auto reduceUpTo = [&](int n) {
            std::string acc;
            if (o.mode == 0) {
                acc = c.in[0].at(0);
                for (int i = 1; i < n; ++i) {
                    std::string nxt = c.in[i].at(0);
                    combine(acc, nxt, c.type, c.op, c.fn);
                    acc = nxt;
                }
            } else {
                acc = c.in[n - 1].at(0);
                for (int i = n - 2; i >= 0; --i) combine(c.in[i].at(0), acc, c.type, c.op, c.fn);
            }
            return acc;
        };
        switch (c.kind) {
            case BARRIER: b.i(0); break;
            case BCAST:
                b.i(1);
                b.str(c.in[c.root].at(0));
                break;
            case REDUCE:
                if (r == c.root) {
                    b.i(1);
                    b.str(reduceUpTo(P));
                } else
                    b.i(0);
                break;
            case ALLREDUCE:
                b.i(1);
                b.str(reduceUpTo(P));
                break;
            case SCAN:
                b.i(1);
                b.str(reduceUpTo(r + 1));
                break;
            case EXSCAN:
                if (r) {
                    b.i(1);
                    b.str(reduceUpTo(r));
                } else
                    b.i(0);
                break;
            case GATHER:
            case ALLGATHER:
                if (c.kind == ALLGATHER || r == c.root) {
                    b.i(P);
                    for (int i = 0; i < P; ++i) b.str(c.in[i].at(0));
                } else
                    b.i(0);
                break;
            case ALLTOALL:
                b.i(P);
                for (int i = 0; i < P; ++i) b.str(c.in[i].at(r));
                break;
        }
        reply(r, b);
        return true;
    }
    // completes what can complete without a choice
    bool deterministic() {
        bool any = false;
        for (int r = 0; r < P; ++r) {
            Rank& k = R[r];
            if (!k.blocked) continue;
            if (k.op == COLL) {
                any |= completeColl(r);
            } else if (k.op == PROBE || k.op == IPROBE) {
                if (k.psrc != MPI_ANY_SOURCE) {
                    Msg* m = first(r, k.psrc, k.ptag, k.pcomm);
                    if (m) {
                        answerProbe(r, m);
                        any = true;
                    }
                }
            } else if (k.op == WAITANY) {
                for (std::size_t i = 0; i < k.reqs.size(); ++i)
                    if (done(r, k.reqs[i])) {
                        Blob b;
                        b.i(i);
                        addRequest(r, k.reqs[i], b);
                        reply(r, b);
                        any = true;
                        break;
                    }
            } else {
                bool all = true;
                for (int id : k.reqs) all = all && done(r, id);
                if (all) {
                    Blob b;
                    b.i(1);
                    for (int id : k.reqs) addRequest(r, id, b);
                    reply(r, b);
                    any = true;
                }
            }
        }
        return any;
    }
    void answerProbe(int r, Msg* m) {
        joinVC(R[r].vc, m->vc);
        Blob b;
        b.i(1);
        b.i(m->src);
        b.i(m->tag);
        b.i(m->data.size());
        reply(r, b);
    }
    bool wildcard() {
        bool held = false;
        for (int pass = 0; pass < 2; ++pass) {
            for (int r = 0; r < P; ++r) {
                Rank& k = R[r];
                Recv* v = nullptr;
                int tag, comm;
                for (Recv* w : k.posted)
                    if (w->wildcard && !w->m) {
                        v = w;
                        break;
                    }
                if (v) {
                    tag = v->tag;
                    comm = v->comm;
                } else if (k.blocked && (k.op == PROBE || k.op == IPROBE) && k.psrc == MPI_ANY_SOURCE) {
                    tag = k.ptag;
                    comm = k.pcomm;
                } else
                    continue;
                std::vector<int> sources;
                for (int s = 0; s < P; ++s)
                    if (first(r, s, tag, comm)) sources.push_back(s);
                if (sources.empty()) continue;
                auto key = std::make_pair(r, k.wildcards);
                int src = sources[0];
                auto f = forced.find(key);
                if (f != forced.end()) {
                    if (std::find(sources.begin(), sources.end(), f->second) != sources.end())
                        src = f->second;
                    else if (pass == 0) {
                        held = true;
                        continue;
                    } else
                        diverged = true;
                }
                Decision d;
                d.rank = r;
                d.ord = k.wildcards++;
                d.chosen = src;
                d.clock = ++k.vc[r];
                d.time = now;
                d.tag = tag;
                d.comm = comm;
                d.vc = k.vc;
                decisions.push_back(d);
                Msg* m = first(r, src, tag, comm);
                if (v) {
                    matchTo(v, m);
                    ++now;
                } else {
                    ++now;
                    answerProbe(r, m);
                }
                return true;
            }
            if (!held) break;
        }
        return false;
    }
    bool pollers() {
        for (int r = 0; r < P; ++r) {
            Rank& k = R[r];
            if (k.blocked && (k.op == IPROBE || k.op == TESTALL)) {
                if (++k.spins > 2000) bad(mc::str("rank ", r, " polls forever"));
                Blob b;
                b.i(0);
                reply(r, b);
                return true;
            }
        }
        return false;
    }
    void go(const std::function<std::string(int)>& body) {
        start(body);
        while (true) {
            gather();
            match();
            ++now;
            if (deterministic()) continue;
            if (wildcard()) {
                match();
                continue;
            }
            if (pollers()) continue;
            bool all = true;
            for (auto& k : R) all = all && k.finished;
            if (all) break;
            std::ostringstream s;
            s << "deadlock:";
            for (int r = 0; r < P; ++r) {
                static const char* names[] = {"?", "Isend", "Irecv", "Wait", "Waitany", "Test", "Probe", "Iprobe", "collective"};
                s << " rank " << r << (R[r].finished ? " finished" : mc::str(" blocked in ", R[r].op == COLL ? kindName(R[r].ckind) : names[R[r].op]));
            }
            bad(s.str());
        }
        for (auto& m : msgs)
            if (!m.matched) bad(mc::str("message from rank ", m.src, " to rank ", m.dst, " (tag ", m.tag, ", ", m.data.size(), " bytes) is never received"));
        for (int i = 0; i < P; ++i) {
            ::close(R[i].fd);
            R[i].fd = -1;
            int st = 0;
            waitpid(R[i].pid, &st, 0);
            R[i].pid = -1;
            if (!WIFEXITED(st) || WEXITSTATUS(st)) bad(mc::str("rank ", i, " crashed at exit"));
        }
    }
};

Stats explore(int P, const Options& o, const std::function<std::string(int)>& body,
              const std::function<void(const std::vector<std::string>&)>& check) {
    Stats st;
    std::list<std::pair<Forced, int>> work;
    std::set<std::string> seenForced, seenOutcome;
    work.push_back({Forced(), 0});
    while (!work.empty()) {
        auto job = work.back();
        work.pop_back();
        Run run(P, o, job.first);
        run.go(body);
        st.transitions += run.transitions;
        st.messages += run.msgs.size();
        std::map<std::pair<int, int>, int> out;
        for (auto& d : run.decisions) out[{d.rank, d.ord}] = d.chosen;
        std::ostringstream key;
        for (auto& x : out) key << x.first.first << "#" << x.first.second << "<" << x.second << ";";
        ++st.schedules;
        st.decisions += run.decisions.size();
        if (seenOutcome.insert(key.str()).second) {
            std::vector<std::string> res;
            for (auto& k : run.R) res.push_back(k.result);
            try {
                check(res);
            } catch (mc::Violation& v) {
                v.msg += " [" + run.schedule() + "]";
                throw;
            } catch (std::string& s) {
                throw mc::Violation{"malformed result: " + s + " [" + run.schedule() + "]"};
            }
        }
        for (auto& d : run.decisions) {
            for (int s = 0; s < P; ++s) {
                if (s == d.chosen) continue;
                const Msg* cand = nullptr;
                for (auto& m : run.msgs)
                    if (m.dst == d.rank && m.src == s && m.comm == d.comm && Run::tagOk(d.tag, m.tag) && m.matchedAt >= d.time) {
                        cand = &m;
                        break;
                    }
                if (!cand || cand->vc[d.rank] >= d.clock) continue;
                if (job.second >= o.maxDeviations) {
                    st.capped = true;
                    continue;
                }
                Forced f;
                for (auto& e : run.decisions)
                    if (&e != &d && !(e.vc[d.rank] >= d.clock)) f[{e.rank, e.ord}] = e.chosen;
                f[{d.rank, d.ord}] = s;
                std::ostringstream fk;
                for (auto& x : f) fk << x.first.first << "#" << x.first.second << "<" << x.second << ";";
                if (seenForced.insert(fk.str()).second) work.push_back({f, job.second + 1});
            }
        }
    }
    st.schedules = seenOutcome.size();
    mc::step(st.transitions);
    mc::count("schedules", st.schedules);
    mc::count("messages", st.messages);
    mc::count("wildcard decisions", st.decisions);
    if (st.capped) mc::count("explorations cut at the deviation bound");
    return st;
}
}  // namespace mcmpi
