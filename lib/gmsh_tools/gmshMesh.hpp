// Stand-in for the gmsh_tools submodule (absent here): plain containers that record what the library puts into them.
#pragma once
#include <array>
#include <vector>
#include <cstddef>
namespace gmsh {
struct Node { std::array<double, 3> c; size_t i, r; Node(std::array<double, 3> a, size_t b, size_t d) : c(a), i(b), r(d) {} std::array<double, 3> getCoordinate() const { return c; } size_t getIndex() const { return i; } };
struct Element { std::vector<size_t> n; size_t i; Element(std::vector<size_t> a, size_t b, size_t, size_t) : n(a), i(b) {} };
struct Vertice { size_t n, i; Vertice(size_t a, size_t b, size_t, size_t) : n(a), i(b) {} };
struct Edge : Element { using Element::Element; }; struct Triangle : Element { using Element::Element; }; struct Quadrangle : Element { using Element::Element; }; struct Tetrahedron : Element { using Element::Element; }; struct Hexahedron : Element { using Element::Element; };
struct Data { size_t i; std::vector<double> v; Data(size_t a, std::vector<double> b) : i(a), v(b) {} }; struct SubData {}; struct NodeData {};
struct Gmesh {
    size_t dim = 0; std::vector<Node> nodes; std::vector<Vertice> vertices; std::vector<Edge> edges; std::vector<Triangle> triangles; std::vector<Quadrangle> quads; std::vector<Tetrahedron> tets; std::vector<Hexahedron> hexes;
    Gmesh() {} Gmesh(size_t d) : dim(d) {}
    size_t getDim() const { return dim; } void addNode(const Node& n) { nodes.push_back(n); } void addVertice(const Vertice& v) { vertices.push_back(v); } void addEdge(const Edge& e) { edges.push_back(e); } void addTriangle(const Triangle& e) { triangles.push_back(e); } void addQuadrangle(const Quadrangle& e) { quads.push_back(e); } void addTetrahedron(const Tetrahedron& e) { tets.push_back(e); } void addHexahedron(const Hexahedron& e) { hexes.push_back(e); }
    size_t getNumberofNodes() const { return nodes.size(); } const std::vector<Edge>& getEdges() const { return edges; } Node getNode(size_t i) const { return nodes.at(i); }
    size_t getNumberofElements() const { return vertices.size() + edges.size() + triangles.size() + quads.size() + tets.size() + hexes.size(); }
};
} // namespace gmsh
