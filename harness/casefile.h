// Case files as a user writes them: a mesh in Gmsh's format and a JSON description.
#pragma once
#include "gen.h"
#include "driver/driver.h"
#include <filesystem>
#include <fstream>

namespace casefile {

using gen::GMesh;

inline std::string slurp(const std::string& f)
{
    std::ifstream in(f, std::ios::binary);
    std::ostringstream s;
    s << in.rdbuf();
    return s.str();
}
inline void spill(const std::string& f, const std::string& text)
{
    std::filesystem::path p(f);
    if (p.has_parent_path()) std::filesystem::create_directories(p.parent_path());
    std::ofstream(f, std::ios::binary | std::ios::trunc) << text;
}

/// One line of the $Elements section.
struct Entity {
    int id = 0, type = 0;
    std::vector<int> tags, nodes;
    std::string line() const
    {
        std::ostringstream s;
        s << id << " " << type << " " << tags.size();
        for (int t : tags) s << " " << t;
        for (int n : nodes) s << " " << n;
        return s.str();
    }
};

inline std::string number(double x)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}

/// Gmsh's number for an element of a mesh (first order) and for its faces
inline int elementType(char t) { return t == 's' ? 1 : t == 't' ? 2 : t == 'q' ? 3 : t == 'T' ? 4 : 5; }
inline int faceType(char t) { return t == 's' ? 15 : t == 't' || t == 'q' ? 1 : t == 'T' ? 2 : 3; }

/// The plain file of a mesh: geometric tags are its attributes, in Gmsh's place for physical tags as well.
inline std::string gmsh(const GMesh& g)
{
    std::ostringstream s;
    s << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << g.v.size() << "\n";
    for (size_t i = 0; i < g.v.size(); i++) s << i + 1 << " " << number(g.v[i][0]) << " " << number(g.v[i][1]) << " " << number(g.v[i][2]) << "\n";
    s << "$EndNodes\n$Elements\n" << g.el.size() + g.bd.size() << "\n";
    int id = 0;
    auto put = [&](int type, int tag, const std::vector<int>& v) {
        s << ++id << " " << type << " 2 " << tag << " " << tag;
        for (int i : v) s << " " << i + 1;
        s << "\n";
    };
    for (size_t i = 0; i < g.bd.size(); i++) put(faceType(g.type), g.ba[i], g.bd[i]);
    for (size_t i = 0; i < g.el.size(); i++) put(elementType(g.type), g.ea[i], g.el[i]);
    s << "$EndElements\n";
    return s.str();
}

/// The model section for a mesh: vacuum in every region, one condition for all boundary tags.
inline json plainModel(const GMesh& g, const std::string& filename, const std::string& condition = "PEC")
{
    std::set<int> r(g.ea.begin(), g.ea.end()), b(g.ba.begin(), g.ba.end());
    json m;
    m["filename"] = filename;
    m["materials"] = json::array({ { { "tags", std::vector<int>(r.begin(), r.end()) } } });
    m["boundaries"] = json::array({ { { "tags", std::vector<int>(b.begin(), b.end()) }, { "type", condition } } });
    return m;
}

/// Finds the elements (or boundary faces) of the given mesh at the centres of those of another one.
class Locator {
public:
    explicit Locator(const GMesh& g, bool boundary = false) : boundary_(boundary)
    {
        auto& l = boundary ? g.bd : g.el;
        for (size_t e = 0; e < l.size(); e++) at_[key(g.centroid(l[e]))] = (int)e;
    }
    int operator()(const mfem::Mesh& m, int e) const
    {
        mfem::Array<int> v;
        if (boundary_) m.GetBdrElementVertices(e, v); else m.GetElementVertices(e, v);
        gen::P3 x{ 0, 0, 0 };
        for (int i : v) for (int d = 0; d < m.SpaceDimension(); d++) x[d] += m.GetVertex(i)[d] / v.Size();
        auto k = key(x);
        for (int i = -1; i < 2; i++) for (int j = -1; j < 2; j++) for (int l = -1; l < 2; l++) {
            auto f = at_.find({ k[0] + i, k[1] + j, k[2] + l });
            if (f != at_.end()) return f->second;
        }
        return -1;
    }
private:
    using Key = std::array<long, 3>;
    static Key key(const gen::P3& x) { return { std::lround(x[0] * 1e7), std::lround(x[1] * 1e7), std::lround(x[2] * 1e7) }; }
    bool boundary_;
    std::map<Key, int> at_;
};

} // namespace casefile
