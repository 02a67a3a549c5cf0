// C03: the exported map files are well formed and hold every exported feature exactly once, for every call sequence
#include "synth_histories.hpp"

using namespace rgbd_slam;

namespace {

struct Call
{
    int kind; // 0 point, 1 line, 2 polygon
    std::vector<vector3> pts;
};

// alphabet of calls; every vertex of a sequence gets coordinates of its own
enum
{
    POINT,
    LINE2,
    LINE3,
    POLY3,
    POLY4,
    POLY6,
    POLY_EMPTY,
    LINE_DUP,  // consecutive equal vertices
    POLY_DUP,
    POINT_SAME, // the point that was exported last, again
    CALLS
};
const char* callName(int c)
{
    static const char* n[] = {"point", "line of 2", "line of 3", "triangle", "quad", "hexagon", "empty polygon", "line with a repeated vertex", "polygon with a repeated vertex", "same point"};
    return n[c];
}

Call make(const int c, int& next)
{
    auto v = [&]() {
        ++next;
        // distinct, and representable with few digits; one of them is negative
        return vector3(double(next), -double(next) - 0.5, 1000.0 + next);
    };
    Call r;
    int n = 0;
    switch (c)
    {
        case POINT:
            r.kind = 0;
            n = 1;
            break;
        case LINE2:
        case LINE3:
            r.kind = 1;
            n = c == LINE2 ? 2 : 3;
            break;
        case POLY3:
            r.kind = 2;
            n = 3;
            break;
        case LINE_DUP:
            r.kind = 1;
            n = 3;
            break;
        case POLY_DUP:
            r.kind = 2;
            n = 4;
            break;
        case POINT_SAME:
            r.kind = 0;
            next = std::max(0, next - 1);
            n = 1;
            break;
        case POLY4:
            r.kind = 2;
            n = 4;
            break;
        case POLY6:
            r.kind = 2;
            n = 6;
            break;
        default:
            r.kind = 2;
            n = 0;
    }
    for (int i = 0; i < n; ++i)
        r.pts.push_back(v());
    if (c == LINE_DUP or c == POLY_DUP)
        r.pts.insert(r.pts.begin() + 1, r.pts[1]);
    // boundaries are closed rings: the last vertex repeats the first one
    if (r.kind == 2 and n > 0)
        r.pts.push_back(r.pts.front());
    return r;
}

void emit(outputs::IMap_Writer& w, const Call& c)
{
    if (c.kind == 0)
        w.add_point(c.pts[0]);
    else if (c.kind == 1)
        w.add_line(c.pts);
    else
        w.add_polygon(c.pts, vector3(0, 0, 1));
}

bool same(const vector3& a, const vector3& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-3; }

std::vector<std::string> lines_of(const std::string& file)
{
    std::ifstream in(file);
    std::vector<std::string> l;
    std::string s;
    while (std::getline(in, s))
        l.push_back(s);
    return l;
}

// the map of a former run is under the name of the new one: nothing of it stays
void leave_former_map(const std::string& file)
{
    std::ofstream out(file, std::ios::trunc);
    for (int i = 0; i < 40; ++i)
        out << "v 1 2 3\n";
    out << "f 1 2 3\n";
}

void run_obj(mc::Ctx& ctx, const std::vector<int>& word)
{
    const std::string base = synth::scratch_dir() + "/map";
    leave_former_map(base + ".obj");
    std::vector<Call> calls;
    int next = 0;
    {
        outputs::OBJ_Map_Writer w(base);
        for (const int c: word)
        {
            ctx.note("%s", callName(c));
            ctx.step();
            calls.push_back(make(c, next));
            emit(w, calls.back());
        }
    }
    std::vector<vector3> vertices;
    struct Elt
    {
        char kind;
        std::vector<vector3> pts;
    };
    std::vector<Elt> elts;
    uint64_t h = 3;
    for (const std::string& l: lines_of(base + ".obj"))
    {
        std::istringstream ls(l);
        std::string tag;
        if (not(ls >> tag) or tag[0] == '#')
            continue;
        h = mc::mixs(h, tag);
        if (tag == "v")
        {
            vector3 p;
            ctx.check(bool(ls >> p.x() >> p.y() >> p.z()), "obj-vertex", "malformed vertex line: %s", l.c_str());
            vertices.push_back(p);
        }
        else if (tag == "p" or tag == "l" or tag == "f")
        {
            Elt e {tag[0], {}};
            std::string tok;
            while (ls >> tok)
            {
                char* end = nullptr;
                const long i = strtol(tok.c_str(), &end, 10);
                ctx.check(end != tok.c_str() and (*end == 0 or *end == '/'), "obj-index", "malformed element: %s", l.c_str());
                const long k = i > 0 ? i : long(vertices.size()) + 1 + i;
                ctx.check(i != 0 and k >= 1 and size_t(k) <= vertices.size(),
                          "obj-dangling-index",
                          "element '%s' refers to vertex %ld, %zu vertices are defined",
                          l.c_str(),
                          i,
                          vertices.size());
                e.pts.push_back(vertices[size_t(k - 1)]);
            }
            elts.push_back(e);
        }
        else if (tag != "vn" and tag != "vt" and tag != "o" and tag != "g" and tag != "s")
            ctx.fail("obj-statement", "unknown statement: " + l);
    }
    // one element per call, in order, with the geometry that was given (faces: either way around, any first vertex)
    std::vector<const Call*> expected;
    for (const Call& c: calls)
        if (not c.pts.empty())
            expected.push_back(&c);
    ctx.check(elts.size() == expected.size(), "obj-element-count", "%zu elements for %zu features", elts.size(), expected.size());
    for (size_t i = 0; i < elts.size(); ++i)
    {
        const Call& c = *expected[i];
        const Elt& e = elts[i];
        ctx.check(e.kind == "plf"[c.kind], "obj-element-kind", "element %zu has kind %c", i, e.kind);
        std::vector<vector3> want = c.pts, got = e.pts;
        auto unclose = [](std::vector<vector3>& v) {
            while (v.size() > 1 and same(v.front(), v.back()))
                v.pop_back();
        };
        if (c.kind == 2)
        {
            unclose(want);
            unclose(got);
        }
        bool ok = want.size() == got.size();
        if (ok and c.kind != 2)
            for (size_t k = 0; k < want.size(); ++k)
                ok = ok and same(want[k], got[k]);
        if (ok and c.kind == 2)
        {
            // the writer documents that the order is reversed
            ok = false;
            const size_t n = want.size();
            for (size_t s = 0; s < n and not ok; ++s)
            {
                bool m = true;
                for (size_t k = 0; k < n; ++k)
                    m = m and same(want[(s + n - k) % n], got[k]);
                ok = m;
            }
        }
        ctx.check(ok, "obj-geometry", "element %zu does not have the geometry of feature %zu (%s)", i, i, callName(word[i]));
    }
    ctx.state(h);
    ctx.outcome(mc::fmt("%zu elements %zu vertices", elts.size(), vertices.size()));
    unlink((base + ".obj").c_str());
}

template<class W> void run_points(mc::Ctx& ctx, const std::vector<int>& word, const std::string& ext, const bool pcd)
{
    const std::string base = synth::scratch_dir() + "/map";
    leave_former_map(base + ext);
    std::vector<vector3> expected;
    int next = 0;
    {
        W w(base);
        for (const int c: word)
        {
            ctx.note("%s", callName(c));
            ctx.step();
            const Call call = make(c, next);
            emit(w, call);
            if (call.kind == 0)
                expected.push_back(call.pts[0]);
        }
    }
    std::vector<vector3> got;
    bool data = not pcd;
    std::map<std::string, std::string> header;
    for (const std::string& l: lines_of(base + ext))
    {
        if (l.empty() or l[0] == '#')
            continue;
        std::istringstream ls(l);
        if (not data)
        {
            std::string tag, rest;
            ls >> tag;
            std::getline(ls, rest);
            header[tag] = rest;
            data = tag == "DATA";
            continue;
        }
        vector3 p;
        std::string extra;
        ctx.check(bool(ls >> p.x() >> p.y() >> p.z()) and not(ls >> extra), "point-line", "malformed line: %s", l.c_str());
        got.push_back(p);
    }
    if (pcd)
    {
        ctx.check(data, "pcd-header", "no DATA statement");
        ctx.check(header["FIELDS"] == " x y z" and header["DATA"] == " ascii", "pcd-header", "wrong header");
    }
    ctx.check(got.size() == expected.size(), "point-count", "%zu points in the file, %zu expected", got.size(), expected.size());
    for (size_t i = 0; i < got.size(); ++i)
        ctx.check(same(got[i], expected[i]), "point-value", "point %zu differs", i);
    ctx.state(mc::mix(uint64_t(pcd), got.size()));
    ctx.outcome(mc::fmt("%zu points", got.size()));
    unlink((base + ext).c_str());
}

} // namespace

int main(int argc, char** argv)
{
    using namespace synth;
    std::vector<mc::Family> f;
    f.push_back({"obj_call_sequences",
                 [](bool t) { return mc::words_upto(CALLS, t ? 6 : 4); },
                 [](mc::Ctx& ctx, uint64_t i) { run_obj(ctx, mc::word_upto(i, CALLS)); },
                 5});
    f.push_back({"xyz_call_sequences",
                 [](bool t) { return mc::words_upto(CALLS, t ? 5 : 3); },
                 [](mc::Ctx& ctx, uint64_t i) {
                     run_points<outputs::XYZ_Map_Writer>(ctx, mc::word_upto(i, CALLS), ".xyz", false);
                 },
                 5});
    f.push_back({"pcd_call_sequences",
                 [](bool t) { return mc::words_upto(CALLS, t ? 5 : 3); },
                 [](mc::Ctx& ctx, uint64_t i) {
                     run_points<outputs::PCD_Map_Writer>(ctx, mc::word_upto(i, CALLS), ".pcd", true);
                 },
                 5});
    // every feature that leaves the map, or is in it at the end of the session, is exported exactly once
    f.push_back({"export_histories",
                 [](bool t) { return prefixes2.size() * mc::words_upto(LETTERS2, t ? 5 : 4); },
                 [](mc::Ctx& ctx, uint64_t i) {
                     mc::Dec d(i);
                     std::vector<int> w = prefixes2[d(prefixes2.size())];
                     for (const int l: mc::word_upto(d.v, LETTERS2))
                         w.push_back(l);
                     run_composed(ctx, w);
                 },
                 5});
    f.push_back({"export_single_map",
                 [](bool t) { return mc::words_upto(LETTERS, t ? 5 : 4); },
                 [](mc::Ctx& ctx, uint64_t i) { run_single(ctx, mc::word_upto(i, LETTERS)); },
                 5});
    return mc::main_(argc, argv, f);
}
