// Archives: round trips and isolation, model-based.
#include "lv.hpp"
#include <boost/filesystem.hpp>
#include <fstream>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
using namespace lv;
using limbo::serialize::BinaryArchive;
using limbo::serialize::TextArchive;

static double value(Src& s)
{
    switch (s.weighted({4, 3, 2, 2, 2, 1, 1})) {
    case 0:
        return s.uni(-10, 10);
    case 1:
        return s.i(-5, 5);
    case 2:
        return (s.b() ? -1 : 1) * std::pow(10., s.uni(-300, 300));
    case 3: {
        static const double sp[] = {0., -0., 1. / 3, -2. / 3, 1e15 + 0.3, 123456789.123456789, 0.1, 9007199254740993., 5e-324, -5e-324, 2.2250738585072014e-308, -1.1e-310, 1.7976931348623157e308, -1.7976931348623157e308, 1e22, 1e-7, 999999999999999.9, 0.99999999999999989};
        return sp[s.u(sizeof sp / sizeof *sp)];
    }
    case 4: { // any finite bit pattern
        uint64_t b = s.bits();
        double d;
        memcpy(&d, &b, 8);
        return std::isfinite(d) ? d : 1.5;
    }
    case 5:
        return (double)s.i(-1000000, 1000000) * 1e-6;
    default:
        return s.uni(-1, 1) * 1e-310;
    }
}
template <typename Mx>
Mx matrix(Src& s, int r, int c)
{
    Mx m(r, c);
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++)
            m(i, j) = value(s);
    return m;
}
static bool bits_equal(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
static void same_value(Src& s, double got, double want, bool text, const std::string& w)
{
    if (!text) {
        s.check(bits_equal(got, want), w + ": not bit for bit", std::to_string(want) + " read as " + std::to_string(got));
        return;
    }
    std::ostringstream o;
    o.precision(17);
    o << want << " read as " << got;
    if (want == 0)
        s.check(got == 0 && std::signbit(got) == std::signbit(want), w + ": zero", o.str());
    else if (std::abs(want) < 2.3e-308) // subnormal: the spacing is coarser than 15 digits
        s.check(std::abs(got - want) <= 5.3e-15 * std::abs(want) + 4.95e-324, w + ": subnormal", o.str());
    else if (std::abs(want) > 1.797693134862315e308) // may round up beyond the largest double
        s.check(got == want || std::abs(got / want - 1) <= 5.3e-15 || (std::isinf(got) && (got > 0) == (want > 0)), w + ": huge", o.str());
    else
        s.check(std::abs(got - want) <= 5.3e-15 * std::abs(want), w + ": beyond 15 digits", o.str());
}
template <typename A, typename B>
static void same_matrix(Src& s, const A& got, const B& want, bool text, const std::string& w)
{
    s.check(got.rows() == want.rows() && got.cols() == want.cols(), w + ": shape", std::to_string(got.rows()) + "x" + std::to_string(got.cols()));
    for (int i = 0; i < want.rows(); i++)
        for (int j = 0; j < want.cols(); j++)
            same_value(s, got(i, j), want(i, j), text, w);
}
struct Obj {
    int kind = -1; // 0 matrix 1 vector 2 list
    M m;
    V v;
    std::vector<V> l;
};
template <typename A>
void archive(Src& s, bool text)
{
    std::string root = "arch";
    boost::filesystem::remove_all(root);
    std::vector<std::string> dirs = {root + "/a", root + "/a/b/c", root + "/x y", root + "/deep/er/than/before", root};
    std::vector<std::string> names = {"samples", "kernel_params", "m1", "m10", "data.v2"};
    std::map<std::pair<int, int>, Obj> model;
    int nops = s.i(2, 10), overw = 0, nest = 0;
    s << (text ? "text" : "binary") << " ops:";
    // archive objects are used once, kept, or copied from one that was used
    std::map<int, A> kept;
    auto archive_of = [&](int d) {
        auto it = kept.find(d);
        if (it == kept.end() || s.p(0.3))
            it = kept.emplace(d, A(dirs[d])).first;
        return s.p(0.3) ? A(dirs[d]) : it->second;
    };
    using Other = typename std::conditional<std::is_same<A, TextArchive>::value, BinaryArchive, TextArchive>::type;
    auto verify = [&](int d, int n) {
        A ar = archive_of(d);
        s.check(ar.directory() == dirs[d], "directory()");
        Obj& o = model[{d, n}];
        std::string w = o.kind == 0 ? "matrix" : o.kind == 1 ? "vector" : "list";
        // objects to load into have any previous content
        if (o.kind == 0) {
            M m = s.b() ? M() : M(M::Constant(3, 2, 7.));
            ar.load(m, names[n]);
            same_matrix(s, m, o.m, text, w);
        }
        else if (o.kind == 1) {
            V v = s.b() ? V() : V(V::Constant(9, 7.));
            ar.load(v, names[n]);
            same_matrix(s, v, o.v, text, w);
        }
        else {
            std::vector<V> l;
            if (s.b())
                l.assign(3, V::Constant(2, 7.));
            ar.load(l, names[n]);
            s.check(l.size() == o.l.size(), "list: length", std::to_string(l.size()));
            for (size_t i = 0; i < l.size(); i++)
                same_matrix(s, l[i], o.l[i], text, w);
        }
    };
    for (int k = 0; k < nops; k++) {
        int d = s.i(0, (int)dirs.size() - 1), n = s.i(0, (int)names.size() - 1);
        if (s.p(0.08) && !model.empty()) {
            // the directory is moved away: a copy to read from; what is stored next goes to a new directory
            if (!boost::filesystem::exists(dirs[d]))
                continue;
            boost::filesystem::remove_all("moved");
            boost::filesystem::rename(dirs[d], "moved");
            s << " move " << dirs[d];
            s.label("directory moved away");
            for (auto it = model.begin(); it != model.end();) {
                std::string o = dirs[it->first.first];
                if (o == dirs[d] || o.compare(0, dirs[d].size() + 1, dirs[d] + "/") == 0) {
                    A was("moved" + o.substr(dirs[d].size()));
                    if (it->second.kind == 1) {
                        V v;
                        was.load(v, names[it->first.second]);
                        same_matrix(s, v, it->second.v, text, "vector in a moved directory");
                    }
                    it = model.erase(it);
                }
                else
                    ++it;
            }
            boost::filesystem::remove_all("moved");
            continue;
        }
        if (s.p(0.05)) {
            // the other format in the same place
            V v = V::Constant(s.i(1, 5), 4.);
            if (s.b())
                Other(dirs[d]).save(v, names[n]);
            else
                Other(dirs[d]).save(std::vector<V>(2, v), names[n]);
            s << " other format in " << dirs[d] << "/" << names[n];
            continue;
        }
        if (s.p(0.7) || model.empty()) {
            Obj o;
            o.kind = s.i(0, 2);
            A ar = archive_of(d);
            if (o.kind == 0) {
                o.m = matrix<M>(s, s.size(1, 6, 70, 0.03), s.size(1, 6, 150, 0.03));
                ar.save(o.m, names[n]);
                s << " save " << o.m.rows() << "x" << o.m.cols();
            }
            else if (o.kind == 1) {
                o.v = matrix<V>(s, s.size(1, 9, 1500, 0.03), 1);
                ar.save(o.v, names[n]);
                s << " save vector" << o.v.size();
            }
            else {
                int c = s.size(1, 6, 150, 0.03), len = s.size(1, 5, 40, 0.03);
                for (int i = 0; i < c; i++)
                    o.l.push_back(matrix<V>(s, s.p(0.2) ? s.i(1, 5) : len, 1));
                ar.save(o.l, names[n]);
                s << " save list" << c;
            }
            s << " in " << dirs[d] << "/" << names[n];
            if (model.count({d, n}))
                overw++;
            if (d == 1 || d == 3)
                nest++;
            model[{d, n}] = o;
            s.check(boost::filesystem::exists(ar.fname(names[n])), "fname() does not name the file");
            verify(d, n);
        }
        else {
            auto it = model.begin();
            std::advance(it, s.u(model.size()));
            verify(it->first.first, it->first.second);
            s << " load";
        }
    }
    for (auto& kv : std::map<std::pair<int, int>, Obj>(model))
        verify(kv.first.first, kv.first.second);
    if (overw)
        s.label("overwritten");
    if (nest)
        s.label("nested directory created");
    s.nontrivial(model.size() >= 2 || overw);
    boost::filesystem::remove_all(root);
}
PBT_SUITE("binary", 5, "a history of saves and loads that stores under at least two names or overwrites one") { archive<BinaryArchive>(s, false); }
PBT_SUITE("text", 5, "a history of saves and loads that stores under at least two names or overwrites one") { archive<TextArchive>(s, true); }
// large shapes
PBT_SUITE("large", 1, "one object of up to 40 x 40 and a list of up to 200 vectors, or a list of up to 200000 vectors, or up to 150000 rows or columns")
{
    bool text = s.b();
    M m = matrix<M>(s, s.i(1, 40), s.i(1, 40));
    std::vector<V> l;
    int c = s.i(1, 200), len = s.i(1, 6);
    switch (s.weighted({40, 2, 1, 1})) {
    case 1: // beyond the range of small integer types
        c = s.pick(std::vector<int>{255, 256, 257, 32767, 32768, 40000, 65535, 65536, 66000, 140000});
        len = s.i(1, 2);
        s.label("a long list");
        break;
    case 2: {
        int r = s.pick(std::vector<int>{255, 256, 257, 32767, 32768, 40000, 65535, 65536, 66000, 140000}), k = s.i(1, 2);
        m.resize(s.b() ? r : k, 0);
        m.resize(m.rows(), m.rows() == r ? k : r);
        for (int i = 0; i < m.size(); i++)
            m.data()[i] = std::sin(i) * std::exp(i % 50);
        s.label("a long matrix");
        break;
    }
    case 3:
        len = s.i(200, 3000);
        c = s.i(1, 5);
        s.label("long vectors");
    }
    V base = matrix<V>(s, 4, 1);
    for (int i = 0; i < 4; i++)
        if (!std::isfinite(base(i)))
            base(i) = i;
    for (int i = 0; i < c; i++) {
        V v(len);
        for (int j = 0; j < len; j++) {
            v(j) = base(j % 4) * (i + 1.) + j / 3.;
            if (!std::isfinite(v(j)))
                v(j) = i;
        }
        l.push_back(v);
    }
    s << (text ? "text " : "binary ") << m.rows() << "x" << m.cols() << " list " << c;
    s.nontrivial();
    M m2;
    std::vector<V> l2;
    if (text) {
        TextArchive a("big");
        a.save(m, "m");
        a.save(l, "l");
        a.load(m2, "m");
        a.load(l2, "l");
    }
    else {
        BinaryArchive a("big");
        a.save(m, "m");
        a.save(l, "l");
        a.load(m2, "m");
        a.load(l2, "l");
    }
    same_matrix(s, m2, m, text, "matrix");
    s.check(l2.size() == l.size(), "list: length");
    for (size_t i = 0; i < l.size(); i++)
        same_matrix(s, l2[i], l[i], text, "list");
    boost::filesystem::remove_all("big");
}
