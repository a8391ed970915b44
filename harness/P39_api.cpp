// Wrappers of the meshing library (written by tools/gen_gmsh.py)
// @src src/gmsh/base_gmsh_api.cpp
// @config UM2_USE_GMSH=1
// @bounds every wrapped function of the meshing library with every number and truth value, two-element lists and fixed texts as arguments, once with all arguments and once without the optional ones
// @outside callbacks, raw pointers and command-line arguments; longer lists; functions without a wrapper or whose wrapper is declared but not defined
#include "vrt.hpp"
#include <gmsh.h>
#include <um2/gmsh/base_gmsh_api.hpp>
// Any value of a type
template <class T>
struct Any;
template <>
struct Any<int> {
  static int make() { return vx_int("i", -2147483647 - 1, 2147483647); }
  static bool same(int a, int b) { return a == b; }
};
template <>
struct Any<std::size_t> {
  static std::size_t make() { return vx_u64("n", 0, 18446744073709551615UL); }
  static bool same(std::size_t a, std::size_t b) { return a == b; }
};
template <>
struct Any<bool> {
  static bool make() { return vx_int("b", 0, 1) == 1; }
  static bool same(bool a, bool b) { return a == b; }
};
template <>
struct Any<double> {
  static double make() { return vx_real("x", -1000000, 1000000); }
  static bool same(double a, double b) { return a == b; }
};
static int texts = 0;
template <>
struct Any<std::string> {
  static std::string make()
  {
    std::string s("text A");
    s[5] = static_cast<char>('A' + texts++);
    return s;
  }
  static bool same(std::string const & a, std::string const & b)
  {
    bool r = a.size() == b.size();
    for (std::size_t i = 0; i < a.size() && r; ++i) {
      r = a[i] == b[i];
    }
    return r;
  }
};
template <class A, class B>
struct Any<std::pair<A, B>> {
  static std::pair<A, B> make()
  {
    A const a = Any<A>::make();
    return {a, Any<B>::make()};
  }
  static bool same(std::pair<A, B> const & a, std::pair<A, B> const & b)
  {
    return Any<A>::same(a.first, b.first) & Any<B>::same(a.second, b.second);
  }
};
template <class T>
struct Any<std::vector<T>> {
  static std::vector<T> make()
  {
    std::vector<T> v(2);
    v[0] = Any<T>::make();
    v[1] = Any<T>::make();
    return v;
  }
  static bool same(std::vector<T> const & a, std::vector<T> const & b)
  {
    if (a.size() != b.size()) {
      return false;
    }
    bool r = true;
    for (std::size_t i = 0; i < a.size(); ++i) {
      T const x = a[i];
      T const y = b[i];
      r = r & Any<T>::same(x, y);
    }
    return r;
  }
};
template <class T>
static T make()
{
  return Any<T>::make();
}
// What the caller passed, what the stand-in handed out
static int wanted = -1;
static int count = 0;
static void const * passed[32];
static void const * handed[32];
static void const * given = nullptr;
static void expect(int id)
{
  wanted = id;
  count = 0;
}
template <class T>
static void pass(int i, T const & v)
{
  passed[i] = &v;
}
static void begin(int id)
{
  vx_assert(id == wanted, "the function of the same name");
  ++count;
}
template <class T>
static void in(int i, T const & v)
{
  vx_assert(Any<T>::same(v, *static_cast<T const *>(passed[i])), "arguments arrive as passed");
}
template <class T>
static void out(int i, T & v)
{
  v = make<T>();
  handed[i] = new T(v);
}
template <class T>
static T give()
{
  T const v = make<T>();
  given = new T(v);
  return v;
}
static void called() { vx_assert(count == 1, "called once"); }
template <class T>
static void returned(T const & v)
{
  vx_assert(Any<T>::same(v, *static_cast<T const *>(given)), "result as returned");
  delete static_cast<T const *>(given);
}
template <class T>
static void received(int i, T const & v)
{
  vx_assert(Any<T>::same(v, *static_cast<T const *>(handed[i])), "results handed back");
  delete static_cast<T const *>(handed[i]);
}
// Stand-ins
namespace gmsh
{
void initialize(int, char **, const bool, const bool) {}
}
namespace gmsh
{
int isInitialized() { begin(0); return give<int>(); }
}
namespace gmsh
{
void finalize() { begin(1); }
}
namespace gmsh
{
void open(const std::string & fileName) { begin(2); in(0, fileName); }
}
namespace gmsh
{
void merge(const std::string & fileName) { begin(3); in(0, fileName); }
}
namespace gmsh
{
void write(const std::string & fileName) { begin(4); in(0, fileName); }
}
namespace gmsh
{
void clear() { begin(5); }
}
namespace gmsh::option
{
void setNumber(const std::string & name, const double value) { begin(6); in(0, name); in(1, value); }
}
namespace gmsh::option
{
void getNumber(const std::string & name, double & value) { begin(7); in(0, name); out(1, value); }
}
namespace gmsh::option
{
void setString(const std::string & name, const std::string & value) { begin(8); in(0, name); in(1, value); }
}
namespace gmsh::option
{
void getString(const std::string & name, std::string & value) { begin(9); in(0, name); out(1, value); }
}
namespace gmsh::option
{
void setColor(const std::string & name, const int r, const int g, const int b, const int a) { begin(10); in(0, name); in(1, r); in(2, g); in(3, b); in(4, a); }
}
namespace gmsh::option
{
void getColor(const std::string & name, int & r, int & g, int & b, int & a) { begin(11); in(0, name); out(1, r); out(2, g); out(3, b); out(4, a); }
}
namespace gmsh::model
{
void add(const std::string & name) { begin(12); in(0, name); }
}
namespace gmsh::model
{
void remove() { begin(13); }
}
namespace gmsh::model
{
void list(std::vector<std::string> & names) { begin(14); out(0, names); }
}
namespace gmsh::model
{
void getCurrent(std::string & name) { begin(15); out(0, name); }
}
namespace gmsh::model
{
void setCurrent(const std::string & name) { begin(16); in(0, name); }
}
namespace gmsh::model
{
void getFileName(std::string & fileName) { begin(17); out(0, fileName); }
}
namespace gmsh::model
{
void setFileName(const std::string & fileName) { begin(18); in(0, fileName); }
}
namespace gmsh::model
{
void getEntities(gmsh::vectorpair & dimTags, const int dim) { begin(19); out(0, dimTags); in(1, dim); }
}
namespace gmsh::model
{
void setEntityName(const int dim, const int tag, const std::string & name) { begin(20); in(0, dim); in(1, tag); in(2, name); }
}
namespace gmsh::model
{
void getEntityName(const int dim, const int tag, std::string & name) { begin(21); in(0, dim); in(1, tag); out(2, name); }
}
namespace gmsh::model
{
void removeEntityName(const std::string & name) { begin(22); in(0, name); }
}
namespace gmsh::model
{
void getPhysicalGroups(gmsh::vectorpair & dimTags, const int dim) { begin(23); out(0, dimTags); in(1, dim); }
}
namespace gmsh::model
{
void getEntitiesForPhysicalGroup(const int dim, const int tag, std::vector<int> & tags) { begin(24); in(0, dim); in(1, tag); out(2, tags); }
}
namespace gmsh::model
{
void getEntitiesForPhysicalName(const std::string &, gmsh::vectorpair &) {}
}
namespace gmsh::model
{
void getPhysicalGroupsForEntity(const int dim, const int tag, std::vector<int> & physicalTags) { begin(25); in(0, dim); in(1, tag); out(2, physicalTags); }
}
namespace gmsh::model
{
int addPhysicalGroup(const int dim, const std::vector<int> & tags, const int tag, const std::string & name) { begin(26); in(0, dim); in(1, tags); in(2, tag); in(3, name); return give<int>(); }
}
namespace gmsh::model
{
void removePhysicalGroups(const gmsh::vectorpair & dimTags) { begin(27); in(0, dimTags); }
}
namespace gmsh::model
{
void setPhysicalName(const int dim, const int tag, const std::string & name) { begin(28); in(0, dim); in(1, tag); in(2, name); }
}
namespace gmsh::model
{
void getPhysicalName(const int dim, const int tag, std::string & name) { begin(29); in(0, dim); in(1, tag); out(2, name); }
}
namespace gmsh::model
{
void removePhysicalName(const std::string & name) { begin(30); in(0, name); }
}
namespace gmsh::model
{
void setTag(const int dim, const int tag, const int newTag) { begin(31); in(0, dim); in(1, tag); in(2, newTag); }
}
namespace gmsh::model
{
void getBoundary(const gmsh::vectorpair & dimTags, gmsh::vectorpair & outDimTags, const bool combined, const bool oriented, const bool recursive) { begin(32); in(0, dimTags); out(1, outDimTags); in(2, combined); in(3, oriented); in(4, recursive); }
}
namespace gmsh::model
{
void getAdjacencies(const int dim, const int tag, std::vector<int> & upward, std::vector<int> & downward) { begin(33); in(0, dim); in(1, tag); out(2, upward); out(3, downward); }
}
namespace gmsh::model
{
void getEntitiesInBoundingBox(const double xmin, const double ymin, const double zmin, const double xmax, const double ymax, const double zmax, gmsh::vectorpair & dimTags, const int dim) { begin(34); in(0, xmin); in(1, ymin); in(2, zmin); in(3, xmax); in(4, ymax); in(5, zmax); out(6, dimTags); in(7, dim); }
}
namespace gmsh::model
{
void getBoundingBox(const int dim, const int tag, double & xmin, double & ymin, double & zmin, double & xmax, double & ymax, double & zmax) { begin(35); in(0, dim); in(1, tag); out(2, xmin); out(3, ymin); out(4, zmin); out(5, xmax); out(6, ymax); out(7, zmax); }
}
namespace gmsh::model
{
int getDimension() { begin(36); return give<int>(); }
}
namespace gmsh::model
{
int addDiscreteEntity(const int dim, const int tag, const std::vector<int> & boundary) { begin(37); in(0, dim); in(1, tag); in(2, boundary); return give<int>(); }
}
namespace gmsh::model
{
void removeEntities(const gmsh::vectorpair & dimTags, const bool recursive) { begin(38); in(0, dimTags); in(1, recursive); }
}
namespace gmsh::model
{
void getType(const int dim, const int tag, std::string & entityType) { begin(39); in(0, dim); in(1, tag); out(2, entityType); }
}
namespace gmsh::model
{
void getParent(const int dim, const int tag, int & parentDim, int & parentTag) { begin(40); in(0, dim); in(1, tag); out(2, parentDim); out(3, parentTag); }
}
namespace gmsh::model
{
int getNumberOfPartitions() { begin(41); return give<int>(); }
}
namespace gmsh::model
{
void getPartitions(const int dim, const int tag, std::vector<int> & partitions) { begin(42); in(0, dim); in(1, tag); out(2, partitions); }
}
namespace gmsh::model
{
void getValue(const int dim, const int tag, const std::vector<double> & parametricCoord, std::vector<double> & coord) { begin(43); in(0, dim); in(1, tag); in(2, parametricCoord); out(3, coord); }
}
namespace gmsh::model
{
void getDerivative(const int dim, const int tag, const std::vector<double> & parametricCoord, std::vector<double> & derivatives) { begin(44); in(0, dim); in(1, tag); in(2, parametricCoord); out(3, derivatives); }
}
namespace gmsh::model
{
void getSecondDerivative(const int dim, const int tag, const std::vector<double> & parametricCoord, std::vector<double> & derivatives) { begin(45); in(0, dim); in(1, tag); in(2, parametricCoord); out(3, derivatives); }
}
namespace gmsh::model
{
void getCurvature(const int dim, const int tag, const std::vector<double> & parametricCoord, std::vector<double> & curvatures) { begin(46); in(0, dim); in(1, tag); in(2, parametricCoord); out(3, curvatures); }
}
namespace gmsh::model
{
void getPrincipalCurvatures(const int tag, const std::vector<double> & parametricCoord, std::vector<double> & curvatureMax, std::vector<double> & curvatureMin, std::vector<double> & directionMax, std::vector<double> & directionMin) { begin(47); in(0, tag); in(1, parametricCoord); out(2, curvatureMax); out(3, curvatureMin); out(4, directionMax); out(5, directionMin); }
}
namespace gmsh::model
{
void getNormal(const int tag, const std::vector<double> & parametricCoord, std::vector<double> & normals) { begin(48); in(0, tag); in(1, parametricCoord); out(2, normals); }
}
namespace gmsh::model
{
void getParametrization(const int dim, const int tag, const std::vector<double> & coord, std::vector<double> & parametricCoord) { begin(49); in(0, dim); in(1, tag); in(2, coord); out(3, parametricCoord); }
}
namespace gmsh::model
{
void getParametrizationBounds(const int dim, const int tag, std::vector<double> & min, std::vector<double> & max) { begin(50); in(0, dim); in(1, tag); out(2, min); out(3, max); }
}
namespace gmsh::model
{
int isInside(const int dim, const int tag, const std::vector<double> & coord, const bool parametric) { begin(51); in(0, dim); in(1, tag); in(2, coord); in(3, parametric); return give<int>(); }
}
namespace gmsh::model
{
void getClosestPoint(const int dim, const int tag, const std::vector<double> & coord, std::vector<double> & closestCoord, std::vector<double> & parametricCoord) { begin(52); in(0, dim); in(1, tag); in(2, coord); out(3, closestCoord); out(4, parametricCoord); }
}
namespace gmsh::model
{
void reparametrizeOnSurface(const int dim, const int tag, const std::vector<double> & parametricCoord, const int surfaceTag, std::vector<double> & surfaceParametricCoord, const int which) { begin(53); in(0, dim); in(1, tag); in(2, parametricCoord); in(3, surfaceTag); out(4, surfaceParametricCoord); in(5, which); }
}
namespace gmsh::model
{
void setVisibility(const gmsh::vectorpair & dimTags, const int value, const bool recursive) { begin(54); in(0, dimTags); in(1, value); in(2, recursive); }
}
namespace gmsh::model
{
void getVisibility(const int dim, const int tag, int & value) { begin(55); in(0, dim); in(1, tag); out(2, value); }
}
namespace gmsh::model
{
void setVisibilityPerWindow(const int value, const int windowIndex) { begin(56); in(0, value); in(1, windowIndex); }
}
namespace gmsh::model
{
void setColor(const gmsh::vectorpair & dimTags, const int r, const int g, const int b, const int a, const bool recursive) { begin(57); in(0, dimTags); in(1, r); in(2, g); in(3, b); in(4, a); in(5, recursive); }
}
namespace gmsh::model
{
void getColor(const int dim, const int tag, int & r, int & g, int & b, int & a) { begin(58); in(0, dim); in(1, tag); out(2, r); out(3, g); out(4, b); out(5, a); }
}
namespace gmsh::model
{
void setCoordinates(const int tag, const double x, const double y, const double z) { begin(59); in(0, tag); in(1, x); in(2, y); in(3, z); }
}
namespace gmsh::model
{
void setAttribute(const std::string &, const std::vector<std::string> &) {}
}
namespace gmsh::model
{
void getAttribute(const std::string &, std::vector<std::string> &) {}
}
namespace gmsh::model
{
void getAttributeNames(std::vector<std::string> &) {}
}
namespace gmsh::model
{
void removeAttribute(const std::string &) {}
}
namespace gmsh::model::mesh
{
void generate(const int dim) { begin(60); in(0, dim); }
}
namespace gmsh::model::mesh
{
void partition(const int numPart, const std::vector<std::size_t> & elementTags, const std::vector<int> & partitions) { begin(61); in(0, numPart); in(1, elementTags); in(2, partitions); }
}
namespace gmsh::model::mesh
{
void unpartition() { begin(62); }
}
namespace gmsh::model::mesh
{
void optimize(const std::string & method, const bool force, const int niter, const gmsh::vectorpair & dimTags) { begin(63); in(0, method); in(1, force); in(2, niter); in(3, dimTags); }
}
namespace gmsh::model::mesh
{
void recombine() { begin(64); }
}
namespace gmsh::model::mesh
{
void refine() { begin(65); }
}
namespace gmsh::model::mesh
{
void setOrder(const int order) { begin(66); in(0, order); }
}
namespace gmsh::model::mesh
{
void getLastEntityError(gmsh::vectorpair & dimTags) { begin(67); out(0, dimTags); }
}
namespace gmsh::model::mesh
{
void getLastNodeError(std::vector<std::size_t> & nodeTags) { begin(68); out(0, nodeTags); }
}
namespace gmsh::model::mesh
{
void clear(const gmsh::vectorpair & dimTags) { begin(69); in(0, dimTags); }
}
namespace gmsh::model::mesh
{
void reverse(const gmsh::vectorpair & dimTags) { begin(70); in(0, dimTags); }
}
namespace gmsh::model::mesh
{
void reverseElements(const std::vector<std::size_t> &) {}
}
namespace gmsh::model::mesh
{
void affineTransform(const std::vector<double> & affineTransform, const gmsh::vectorpair & dimTags) { begin(71); in(0, affineTransform); in(1, dimTags); }
}
namespace gmsh::model::mesh
{
void getNodes(std::vector<std::size_t> & nodeTags, std::vector<double> & coord, std::vector<double> & parametricCoord, const int dim, const int tag, const bool includeBoundary, const bool returnParametricCoord) { begin(72); out(0, nodeTags); out(1, coord); out(2, parametricCoord); in(3, dim); in(4, tag); in(5, includeBoundary); in(6, returnParametricCoord); }
}
namespace gmsh::model::mesh
{
void getNodesByElementType(const int elementType, std::vector<std::size_t> & nodeTags, std::vector<double> & coord, std::vector<double> & parametricCoord, const int tag, const bool returnParametricCoord) { begin(73); in(0, elementType); out(1, nodeTags); out(2, coord); out(3, parametricCoord); in(4, tag); in(5, returnParametricCoord); }
}
namespace gmsh::model::mesh
{
void getNode(const std::size_t nodeTag, std::vector<double> & coord, std::vector<double> & parametricCoord, int & dim, int & tag) { begin(74); in(0, nodeTag); out(1, coord); out(2, parametricCoord); out(3, dim); out(4, tag); }
}
namespace gmsh::model::mesh
{
void setNode(const std::size_t nodeTag, const std::vector<double> & coord, const std::vector<double> & parametricCoord) { begin(75); in(0, nodeTag); in(1, coord); in(2, parametricCoord); }
}
namespace gmsh::model::mesh
{
void rebuildNodeCache(const bool onlyIfNecessary) { begin(76); in(0, onlyIfNecessary); }
}
namespace gmsh::model::mesh
{
void rebuildElementCache(const bool onlyIfNecessary) { begin(77); in(0, onlyIfNecessary); }
}
namespace gmsh::model::mesh
{
void getNodesForPhysicalGroup(const int dim, const int tag, std::vector<std::size_t> & nodeTags, std::vector<double> & coord) { begin(78); in(0, dim); in(1, tag); out(2, nodeTags); out(3, coord); }
}
namespace gmsh::model::mesh
{
void getMaxNodeTag(std::size_t & maxTag) { begin(79); out(0, maxTag); }
}
namespace gmsh::model::mesh
{
void addNodes(const int dim, const int tag, const std::vector<std::size_t> & nodeTags, const std::vector<double> & coord, const std::vector<double> & parametricCoord) { begin(80); in(0, dim); in(1, tag); in(2, nodeTags); in(3, coord); in(4, parametricCoord); }
}
namespace gmsh::model::mesh
{
void reclassifyNodes() { begin(81); }
}
namespace gmsh::model::mesh
{
void relocateNodes(const int dim, const int tag) { begin(82); in(0, dim); in(1, tag); }
}
namespace gmsh::model::mesh
{
void getElements(std::vector<int> & elementTypes, std::vector<std::vector<std::size_t> > & elementTags, std::vector<std::vector<std::size_t> > & nodeTags, const int dim, const int tag) { begin(83); out(0, elementTypes); out(1, elementTags); out(2, nodeTags); in(3, dim); in(4, tag); }
}
namespace gmsh::model::mesh
{
void getElement(const std::size_t elementTag, int & elementType, std::vector<std::size_t> & nodeTags, int & dim, int & tag) { begin(84); in(0, elementTag); out(1, elementType); out(2, nodeTags); out(3, dim); out(4, tag); }
}
namespace gmsh::model::mesh
{
void getElementByCoordinates(const double x, const double y, const double z, std::size_t & elementTag, int & elementType, std::vector<std::size_t> & nodeTags, double & u, double & v, double & w, const int dim, const bool strict) { begin(85); in(0, x); in(1, y); in(2, z); out(3, elementTag); out(4, elementType); out(5, nodeTags); out(6, u); out(7, v); out(8, w); in(9, dim); in(10, strict); }
}
namespace gmsh::model::mesh
{
void getElementsByCoordinates(const double x, const double y, const double z, std::vector<std::size_t> & elementTags, const int dim, const bool strict) { begin(86); in(0, x); in(1, y); in(2, z); out(3, elementTags); in(4, dim); in(5, strict); }
}
namespace gmsh::model::mesh
{
void getLocalCoordinatesInElement(const std::size_t elementTag, const double x, const double y, const double z, double & u, double & v, double & w) { begin(87); in(0, elementTag); in(1, x); in(2, y); in(3, z); out(4, u); out(5, v); out(6, w); }
}
namespace gmsh::model::mesh
{
void getElementTypes(std::vector<int> & elementTypes, const int dim, const int tag) { begin(88); out(0, elementTypes); in(1, dim); in(2, tag); }
}
namespace gmsh::model::mesh
{
int getElementType(const std::string & familyName, const int order, const bool serendip) { begin(89); in(0, familyName); in(1, order); in(2, serendip); return give<int>(); }
}
namespace gmsh::model::mesh
{
void getElementProperties(const int elementType, std::string & elementName, int & dim, int & order, int & numNodes, std::vector<double> & localNodeCoord, int & numPrimaryNodes) { begin(90); in(0, elementType); out(1, elementName); out(2, dim); out(3, order); out(4, numNodes); out(5, localNodeCoord); out(6, numPrimaryNodes); }
}
namespace gmsh::model::mesh
{
void getElementsByType(const int elementType, std::vector<std::size_t> & elementTags, std::vector<std::size_t> & nodeTags, const int tag, const std::size_t task, const std::size_t numTasks) { begin(91); in(0, elementType); out(1, elementTags); out(2, nodeTags); in(3, tag); in(4, task); in(5, numTasks); }
}
namespace gmsh::model::mesh
{
void getMaxElementTag(std::size_t & maxTag) { begin(92); out(0, maxTag); }
}
namespace gmsh::model::mesh
{
void preallocateElementsByType(const int elementType, const bool elementTag, const bool nodeTag, std::vector<std::size_t> & elementTags, std::vector<std::size_t> & nodeTags, const int tag) { begin(93); in(0, elementType); in(1, elementTag); in(2, nodeTag); out(3, elementTags); out(4, nodeTags); in(5, tag); }
}
namespace gmsh::model::mesh
{
void getElementQualities(const std::vector<std::size_t> & elementTags, std::vector<double> & elementsQuality, const std::string & qualityName, const std::size_t task, const std::size_t numTasks) { begin(94); in(0, elementTags); out(1, elementsQuality); in(2, qualityName); in(3, task); in(4, numTasks); }
}
namespace gmsh::model::mesh
{
void addElements(const int dim, const int tag, const std::vector<int> & elementTypes, const std::vector<std::vector<std::size_t> > & elementTags, const std::vector<std::vector<std::size_t> > & nodeTags) { begin(95); in(0, dim); in(1, tag); in(2, elementTypes); in(3, elementTags); in(4, nodeTags); }
}
namespace gmsh::model::mesh
{
void addElementsByType(const int tag, const int elementType, const std::vector<std::size_t> & elementTags, const std::vector<std::size_t> & nodeTags) { begin(96); in(0, tag); in(1, elementType); in(2, elementTags); in(3, nodeTags); }
}
namespace gmsh::model::mesh
{
void getIntegrationPoints(const int elementType, const std::string & integrationType, std::vector<double> & localCoord, std::vector<double> & weights) { begin(97); in(0, elementType); in(1, integrationType); out(2, localCoord); out(3, weights); }
}
namespace gmsh::model::mesh
{
void getJacobians(const int elementType, const std::vector<double> & localCoord, std::vector<double> & jacobians, std::vector<double> & determinants, std::vector<double> & coord, const int tag, const std::size_t task, const std::size_t numTasks) { begin(98); in(0, elementType); in(1, localCoord); out(2, jacobians); out(3, determinants); out(4, coord); in(5, tag); in(6, task); in(7, numTasks); }
}
namespace gmsh::model::mesh
{
void preallocateJacobians(const int elementType, const int numEvaluationPoints, const bool allocateJacobians, const bool allocateDeterminants, const bool allocateCoord, std::vector<double> & jacobians, std::vector<double> & determinants, std::vector<double> & coord, const int tag) { begin(99); in(0, elementType); in(1, numEvaluationPoints); in(2, allocateJacobians); in(3, allocateDeterminants); in(4, allocateCoord); out(5, jacobians); out(6, determinants); out(7, coord); in(8, tag); }
}
namespace gmsh::model::mesh
{
void getJacobian(const std::size_t elementTag, const std::vector<double> & localCoord, std::vector<double> & jacobians, std::vector<double> & determinants, std::vector<double> & coord) { begin(100); in(0, elementTag); in(1, localCoord); out(2, jacobians); out(3, determinants); out(4, coord); }
}
namespace gmsh::model::mesh
{
void getBasisFunctions(const int elementType, const std::vector<double> & localCoord, const std::string & functionSpaceType, int & numComponents, std::vector<double> & basisFunctions, int & numOrientations, const std::vector<int> & wantedOrientations) { begin(101); in(0, elementType); in(1, localCoord); in(2, functionSpaceType); out(3, numComponents); out(4, basisFunctions); out(5, numOrientations); in(6, wantedOrientations); }
}
namespace gmsh::model::mesh
{
void getBasisFunctionsOrientation(const int elementType, const std::string & functionSpaceType, std::vector<int> & basisFunctionsOrientation, const int tag, const std::size_t task, const std::size_t numTasks) { begin(102); in(0, elementType); in(1, functionSpaceType); out(2, basisFunctionsOrientation); in(3, tag); in(4, task); in(5, numTasks); }
}
namespace gmsh::model::mesh
{
void getBasisFunctionsOrientationForElement(const std::size_t elementTag, const std::string & functionSpaceType, int & basisFunctionsOrientation) { begin(103); in(0, elementTag); in(1, functionSpaceType); out(2, basisFunctionsOrientation); }
}
namespace gmsh::model::mesh
{
int getNumberOfOrientations(const int elementType, const std::string & functionSpaceType) { begin(104); in(0, elementType); in(1, functionSpaceType); return give<int>(); }
}
namespace gmsh::model::mesh
{
void preallocateBasisFunctionsOrientation(const int elementType, std::vector<int> & basisFunctionsOrientation, const int tag) { begin(105); in(0, elementType); out(1, basisFunctionsOrientation); in(2, tag); }
}
namespace gmsh::model::mesh
{
void getEdges(const std::vector<std::size_t> & nodeTags, std::vector<std::size_t> & edgeTags, std::vector<int> & edgeOrientations) { begin(106); in(0, nodeTags); out(1, edgeTags); out(2, edgeOrientations); }
}
namespace gmsh::model::mesh
{
void getFaces(const int faceType, const std::vector<std::size_t> & nodeTags, std::vector<std::size_t> & faceTags, std::vector<int> & faceOrientations) { begin(107); in(0, faceType); in(1, nodeTags); out(2, faceTags); out(3, faceOrientations); }
}
namespace gmsh::model::mesh
{
void createEdges(const gmsh::vectorpair & dimTags) { begin(108); in(0, dimTags); }
}
namespace gmsh::model::mesh
{
void createFaces(const gmsh::vectorpair & dimTags) { begin(109); in(0, dimTags); }
}
namespace gmsh::model::mesh
{
void getAllEdges(std::vector<std::size_t> & edgeTags, std::vector<std::size_t> & edgeNodes) { begin(110); out(0, edgeTags); out(1, edgeNodes); }
}
namespace gmsh::model::mesh
{
void getAllFaces(const int faceType, std::vector<std::size_t> & faceTags, std::vector<std::size_t> & faceNodes) { begin(111); in(0, faceType); out(1, faceTags); out(2, faceNodes); }
}
namespace gmsh::model::mesh
{
void addEdges(const std::vector<std::size_t> & edgeTags, const std::vector<std::size_t> & edgeNodes) { begin(112); in(0, edgeTags); in(1, edgeNodes); }
}
namespace gmsh::model::mesh
{
void addFaces(const int faceType, const std::vector<std::size_t> & faceTags, const std::vector<std::size_t> & faceNodes) { begin(113); in(0, faceType); in(1, faceTags); in(2, faceNodes); }
}
namespace gmsh::model::mesh
{
void getKeys(const int elementType, const std::string & functionSpaceType, std::vector<int> & typeKeys, std::vector<std::size_t> & entityKeys, std::vector<double> & coord, const int tag, const bool returnCoord) { begin(114); in(0, elementType); in(1, functionSpaceType); out(2, typeKeys); out(3, entityKeys); out(4, coord); in(5, tag); in(6, returnCoord); }
}
namespace gmsh::model::mesh
{
void getKeysForElement(const std::size_t elementTag, const std::string & functionSpaceType, std::vector<int> & typeKeys, std::vector<std::size_t> & entityKeys, std::vector<double> & coord, const bool returnCoord) { begin(115); in(0, elementTag); in(1, functionSpaceType); out(2, typeKeys); out(3, entityKeys); out(4, coord); in(5, returnCoord); }
}
namespace gmsh::model::mesh
{
int getNumberOfKeys(const int elementType, const std::string & functionSpaceType) { begin(116); in(0, elementType); in(1, functionSpaceType); return give<int>(); }
}
namespace gmsh::model::mesh
{
void getKeysInformation(const std::vector<int> & typeKeys, const std::vector<std::size_t> & entityKeys, const int elementType, const std::string & functionSpaceType, gmsh::vectorpair & infoKeys) { begin(117); in(0, typeKeys); in(1, entityKeys); in(2, elementType); in(3, functionSpaceType); out(4, infoKeys); }
}
namespace gmsh::model::mesh
{
void getBarycenters(const int elementType, const int tag, const bool fast, const bool primary, std::vector<double> & barycenters, const std::size_t task, const std::size_t numTasks) { begin(118); in(0, elementType); in(1, tag); in(2, fast); in(3, primary); out(4, barycenters); in(5, task); in(6, numTasks); }
}
namespace gmsh::model::mesh
{
void preallocateBarycenters(const int elementType, std::vector<double> & barycenters, const int tag) { begin(119); in(0, elementType); out(1, barycenters); in(2, tag); }
}
namespace gmsh::model::mesh
{
void getElementEdgeNodes(const int elementType, std::vector<std::size_t> & nodeTags, const int tag, const bool primary, const std::size_t task, const std::size_t numTasks) { begin(120); in(0, elementType); out(1, nodeTags); in(2, tag); in(3, primary); in(4, task); in(5, numTasks); }
}
namespace gmsh::model::mesh
{
void getElementFaceNodes(const int elementType, const int faceType, std::vector<std::size_t> & nodeTags, const int tag, const bool primary, const std::size_t task, const std::size_t numTasks) { begin(121); in(0, elementType); in(1, faceType); out(2, nodeTags); in(3, tag); in(4, primary); in(5, task); in(6, numTasks); }
}
namespace gmsh::model::mesh
{
void getGhostElements(const int dim, const int tag, std::vector<std::size_t> & elementTags, std::vector<int> & partitions) { begin(122); in(0, dim); in(1, tag); out(2, elementTags); out(3, partitions); }
}
namespace gmsh::model::mesh
{
void setSize(const gmsh::vectorpair & dimTags, const double size) { begin(123); in(0, dimTags); in(1, size); }
}
namespace gmsh::model::mesh
{
void getSizes(const gmsh::vectorpair & dimTags, std::vector<double> & sizes) { begin(124); in(0, dimTags); out(1, sizes); }
}
namespace gmsh::model::mesh
{
void setSizeAtParametricPoints(const int dim, const int tag, const std::vector<double> & parametricCoord, const std::vector<double> & sizes) { begin(125); in(0, dim); in(1, tag); in(2, parametricCoord); in(3, sizes); }
}
namespace gmsh::model::mesh
{
void setSizeCallback(std::function<double(int, int, double, double, double, double)>) {}
}
namespace gmsh::model::mesh
{
void removeSizeCallback() { begin(126); }
}
namespace gmsh::model::mesh
{
void setTransfiniteCurve(const int tag, const int numNodes, const std::string & meshType, const double coef) { begin(127); in(0, tag); in(1, numNodes); in(2, meshType); in(3, coef); }
}
namespace gmsh::model::mesh
{
void setTransfiniteSurface(const int tag, const std::string & arrangement, const std::vector<int> & cornerTags) { begin(128); in(0, tag); in(1, arrangement); in(2, cornerTags); }
}
namespace gmsh::model::mesh
{
void setTransfiniteVolume(const int tag, const std::vector<int> & cornerTags) { begin(129); in(0, tag); in(1, cornerTags); }
}
namespace gmsh::model::mesh
{
void setTransfiniteAutomatic(const gmsh::vectorpair & dimTags, const double cornerAngle, const bool recombine) { begin(130); in(0, dimTags); in(1, cornerAngle); in(2, recombine); }
}
namespace gmsh::model::mesh
{
void setRecombine(const int dim, const int tag, const double angle) { begin(131); in(0, dim); in(1, tag); in(2, angle); }
}
namespace gmsh::model::mesh
{
void setSmoothing(const int dim, const int tag, const int val) { begin(132); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::mesh
{
void setReverse(const int dim, const int tag, const bool val) { begin(133); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::mesh
{
void setAlgorithm(const int dim, const int tag, const int val) { begin(134); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::mesh
{
void setSizeFromBoundary(const int dim, const int tag, const int val) { begin(135); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::mesh
{
void setCompound(const int dim, const std::vector<int> & tags) { begin(136); in(0, dim); in(1, tags); }
}
namespace gmsh::model::mesh
{
void setOutwardOrientation(const int tag) { begin(137); in(0, tag); }
}
namespace gmsh::model::mesh
{
void removeConstraints(const gmsh::vectorpair & dimTags) { begin(138); in(0, dimTags); }
}
namespace gmsh::model::mesh
{
void embed(const int dim, const std::vector<int> & tags, const int inDim, const int inTag) { begin(139); in(0, dim); in(1, tags); in(2, inDim); in(3, inTag); }
}
namespace gmsh::model::mesh
{
void removeEmbedded(const gmsh::vectorpair & dimTags, const int dim) { begin(140); in(0, dimTags); in(1, dim); }
}
namespace gmsh::model::mesh
{
void getEmbedded(const int dim, const int tag, gmsh::vectorpair & dimTags) { begin(141); in(0, dim); in(1, tag); out(2, dimTags); }
}
namespace gmsh::model::mesh
{
void reorderElements(const int elementType, const int tag, const std::vector<std::size_t> & ordering) { begin(142); in(0, elementType); in(1, tag); in(2, ordering); }
}
namespace gmsh::model::mesh
{
void computeRenumbering(std::vector<std::size_t> &, std::vector<std::size_t> &, const std::string &, const std::vector<std::size_t> &) {}
}
namespace gmsh::model::mesh
{
void renumberNodes(const std::vector<std::size_t> & oldTags, const std::vector<std::size_t> & newTags) { begin(143); in(0, oldTags); in(1, newTags); }
}
namespace gmsh::model::mesh
{
void renumberElements(const std::vector<std::size_t> & oldTags, const std::vector<std::size_t> & newTags) { begin(144); in(0, oldTags); in(1, newTags); }
}
namespace gmsh::model::mesh
{
void setPeriodic(const int dim, const std::vector<int> & tags, const std::vector<int> & tagsMaster, const std::vector<double> & affineTransform) { begin(145); in(0, dim); in(1, tags); in(2, tagsMaster); in(3, affineTransform); }
}
namespace gmsh::model::mesh
{
void getPeriodic(const int dim, const std::vector<int> & tags, std::vector<int> & tagMaster) { begin(146); in(0, dim); in(1, tags); out(2, tagMaster); }
}
namespace gmsh::model::mesh
{
void getPeriodicNodes(const int dim, const int tag, int & tagMaster, std::vector<std::size_t> & nodeTags, std::vector<std::size_t> & nodeTagsMaster, std::vector<double> & affineTransform, const bool includeHighOrderNodes) { begin(147); in(0, dim); in(1, tag); out(2, tagMaster); out(3, nodeTags); out(4, nodeTagsMaster); out(5, affineTransform); in(6, includeHighOrderNodes); }
}
namespace gmsh::model::mesh
{
void getPeriodicKeys(const int elementType, const std::string & functionSpaceType, const int tag, int & tagMaster, std::vector<int> & typeKeys, std::vector<int> & typeKeysMaster, std::vector<std::size_t> & entityKeys, std::vector<std::size_t> & entityKeysMaster, std::vector<double> & coord, std::vector<double> & coordMaster, const bool returnCoord) { begin(148); in(0, elementType); in(1, functionSpaceType); in(2, tag); out(3, tagMaster); out(4, typeKeys); out(5, typeKeysMaster); out(6, entityKeys); out(7, entityKeysMaster); out(8, coord); out(9, coordMaster); in(10, returnCoord); }
}
namespace gmsh::model::mesh
{
void importStl() { begin(149); }
}
namespace gmsh::model::mesh
{
void getDuplicateNodes(std::vector<std::size_t> & tags, const gmsh::vectorpair & dimTags) { begin(150); out(0, tags); in(1, dimTags); }
}
namespace gmsh::model::mesh
{
void removeDuplicateNodes(const gmsh::vectorpair & dimTags) { begin(151); in(0, dimTags); }
}
namespace gmsh::model::mesh
{
void removeDuplicateElements(const gmsh::vectorpair &) {}
}
namespace gmsh::model::mesh
{
void splitQuadrangles(const double quality, const int tag) { begin(152); in(0, quality); in(1, tag); }
}
namespace gmsh::model::mesh
{
void setVisibility(const std::vector<std::size_t> & elementTags, const int value) { begin(153); in(0, elementTags); in(1, value); }
}
namespace gmsh::model::mesh
{
void getVisibility(const std::vector<std::size_t> &, std::vector<int> &) {}
}
namespace gmsh::model::mesh
{
void classifySurfaces(const double angle, const bool boundary, const bool forReparametrization, const double curveAngle, const bool exportDiscrete) { begin(154); in(0, angle); in(1, boundary); in(2, forReparametrization); in(3, curveAngle); in(4, exportDiscrete); }
}
namespace gmsh::model::mesh
{
void createGeometry(const gmsh::vectorpair & dimTags) { begin(155); in(0, dimTags); }
}
namespace gmsh::model::mesh
{
void createTopology(const bool makeSimplyConnected, const bool exportDiscrete) { begin(156); in(0, makeSimplyConnected); in(1, exportDiscrete); }
}
namespace gmsh::model::mesh
{
void addHomologyRequest(const std::string & type, const std::vector<int> & domainTags, const std::vector<int> & subdomainTags, const std::vector<int> & dims) { begin(157); in(0, type); in(1, domainTags); in(2, subdomainTags); in(3, dims); }
}
namespace gmsh::model::mesh
{
void clearHomologyRequests() { begin(158); }
}
namespace gmsh::model::mesh
{
void computeHomology(gmsh::vectorpair &) {}
}
namespace gmsh::model::mesh
{
void computeCrossField(std::vector<int> & viewTags) { begin(159); out(0, viewTags); }
}
namespace gmsh::model::mesh
{
void triangulate(const std::vector<double> & coord, std::vector<std::size_t> & tri) { begin(160); in(0, coord); out(1, tri); }
}
namespace gmsh::model::mesh
{
void tetrahedralize(const std::vector<double> & coord, std::vector<std::size_t> & tetra) { begin(161); in(0, coord); out(1, tetra); }
}
namespace gmsh::model::mesh::field
{
int add(const std::string & fieldType, const int tag) { begin(162); in(0, fieldType); in(1, tag); return give<int>(); }
}
namespace gmsh::model::mesh::field
{
void remove(const int tag) { begin(163); in(0, tag); }
}
namespace gmsh::model::mesh::field
{
void list(std::vector<int> & tags) { begin(164); out(0, tags); }
}
namespace gmsh::model::mesh::field
{
void getType(const int tag, std::string & fileType) { begin(165); in(0, tag); out(1, fileType); }
}
namespace gmsh::model::mesh::field
{
void setNumber(const int tag, const std::string & option, const double value) { begin(166); in(0, tag); in(1, option); in(2, value); }
}
namespace gmsh::model::mesh::field
{
void getNumber(const int tag, const std::string & option, double & value) { begin(167); in(0, tag); in(1, option); out(2, value); }
}
namespace gmsh::model::mesh::field
{
void setString(const int tag, const std::string & option, const std::string & value) { begin(168); in(0, tag); in(1, option); in(2, value); }
}
namespace gmsh::model::mesh::field
{
void getString(const int tag, const std::string & option, std::string & value) { begin(169); in(0, tag); in(1, option); out(2, value); }
}
namespace gmsh::model::mesh::field
{
void setNumbers(const int tag, const std::string & option, const std::vector<double> & values) { begin(170); in(0, tag); in(1, option); in(2, values); }
}
namespace gmsh::model::mesh::field
{
void getNumbers(const int tag, const std::string & option, std::vector<double> & values) { begin(171); in(0, tag); in(1, option); out(2, values); }
}
namespace gmsh::model::mesh::field
{
void setAsBackgroundMesh(const int tag) { begin(172); in(0, tag); }
}
namespace gmsh::model::mesh::field
{
void setAsBoundaryLayer(const int tag) { begin(173); in(0, tag); }
}
namespace gmsh::model::geo
{
int addPoint(const double x, const double y, const double z, const double meshSize, const int tag) { begin(174); in(0, x); in(1, y); in(2, z); in(3, meshSize); in(4, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addLine(const int startTag, const int endTag, const int tag) { begin(175); in(0, startTag); in(1, endTag); in(2, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addCircleArc(const int startTag, const int centerTag, const int endTag, const int tag, const double nx, const double ny, const double nz) { begin(176); in(0, startTag); in(1, centerTag); in(2, endTag); in(3, tag); in(4, nx); in(5, ny); in(6, nz); return give<int>(); }
}
namespace gmsh::model::geo
{
int addEllipseArc(const int startTag, const int centerTag, const int majorTag, const int endTag, const int tag, const double nx, const double ny, const double nz) { begin(177); in(0, startTag); in(1, centerTag); in(2, majorTag); in(3, endTag); in(4, tag); in(5, nx); in(6, ny); in(7, nz); return give<int>(); }
}
namespace gmsh::model::geo
{
int addSpline(const std::vector<int> &, const int) { return {}; }
}
namespace gmsh::model::geo
{
int addBSpline(const std::vector<int> & pointTags, const int tag) { begin(178); in(0, pointTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addBezier(const std::vector<int> & pointTags, const int tag) { begin(179); in(0, pointTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addPolyline(const std::vector<int> & pointTags, const int tag) { begin(180); in(0, pointTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addCompoundSpline(const std::vector<int> & curveTags, const int numIntervals, const int tag) { begin(181); in(0, curveTags); in(1, numIntervals); in(2, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addCompoundBSpline(const std::vector<int> & curveTags, const int numIntervals, const int tag) { begin(182); in(0, curveTags); in(1, numIntervals); in(2, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addCurveLoop(const std::vector<int> & curveTags, const int tag, const bool reorient) { begin(183); in(0, curveTags); in(1, tag); in(2, reorient); return give<int>(); }
}
namespace gmsh::model::geo
{
void addCurveLoops(const std::vector<int> & curveTags, std::vector<int> & tags) { begin(184); in(0, curveTags); out(1, tags); }
}
namespace gmsh::model::geo
{
int addPlaneSurface(const std::vector<int> & wireTags, const int tag) { begin(185); in(0, wireTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addSurfaceFilling(const std::vector<int> & wireTags, const int tag, const int sphereCenterTag) { begin(186); in(0, wireTags); in(1, tag); in(2, sphereCenterTag); return give<int>(); }
}
namespace gmsh::model::geo
{
int addSurfaceLoop(const std::vector<int> &, const int) { return {}; }
}
namespace gmsh::model::geo
{
int addVolume(const std::vector<int> &, const int) { return {}; }
}
namespace gmsh::model::geo
{
int addGeometry(const std::string &, const std::vector<double> &, const std::vector<std::string> &, const int) { return {}; }
}
namespace gmsh::model::geo
{
int addPointOnGeometry(const int, const double, const double, const double, const double, const int) { return {}; }
}
namespace gmsh::model::geo
{
void extrude(const gmsh::vectorpair &, const double, const double, const double, gmsh::vectorpair &, const std::vector<int> &, const std::vector<double> &, const bool) {}
}
namespace gmsh::model::geo
{
void revolve(const gmsh::vectorpair & dimTags, const double x, const double y, const double z, const double ax, const double ay, const double az, const double angle, gmsh::vectorpair & outDimTags, const std::vector<int> & numElements, const std::vector<double> & heights, const bool recombine) { begin(187); in(0, dimTags); in(1, x); in(2, y); in(3, z); in(4, ax); in(5, ay); in(6, az); in(7, angle); out(8, outDimTags); in(9, numElements); in(10, heights); in(11, recombine); }
}
namespace gmsh::model::geo
{
void twist(const gmsh::vectorpair & dimTags, const double x, const double y, const double z, const double dx, const double dy, const double dz, const double ax, const double ay, const double az, const double angle, gmsh::vectorpair & outDimTags, const std::vector<int> & numElements, const std::vector<double> & heights, const bool recombine) { begin(188); in(0, dimTags); in(1, x); in(2, y); in(3, z); in(4, dx); in(5, dy); in(6, dz); in(7, ax); in(8, ay); in(9, az); in(10, angle); out(11, outDimTags); in(12, numElements); in(13, heights); in(14, recombine); }
}
namespace gmsh::model::geo
{
void extrudeBoundaryLayer(const gmsh::vectorpair & dimTags, gmsh::vectorpair & outDimTags, const std::vector<int> & numElements, const std::vector<double> & heights, const bool recombine, const bool second, const int viewIndex) { begin(189); in(0, dimTags); out(1, outDimTags); in(2, numElements); in(3, heights); in(4, recombine); in(5, second); in(6, viewIndex); }
}
namespace gmsh::model::geo
{
void translate(const gmsh::vectorpair & dimTags, const double dx, const double dy, const double dz) { begin(190); in(0, dimTags); in(1, dx); in(2, dy); in(3, dz); }
}
namespace gmsh::model::geo
{
void rotate(const gmsh::vectorpair & dimTags, const double x, const double y, const double z, const double ax, const double ay, const double az, const double angle) { begin(191); in(0, dimTags); in(1, x); in(2, y); in(3, z); in(4, ax); in(5, ay); in(6, az); in(7, angle); }
}
namespace gmsh::model::geo
{
void dilate(const gmsh::vectorpair & dimTags, const double x, const double y, const double z, const double a, const double b, const double c) { begin(192); in(0, dimTags); in(1, x); in(2, y); in(3, z); in(4, a); in(5, b); in(6, c); }
}
namespace gmsh::model::geo
{
void mirror(const gmsh::vectorpair & dimTags, const double a, const double b, const double c, const double d) { begin(193); in(0, dimTags); in(1, a); in(2, b); in(3, c); in(4, d); }
}
namespace gmsh::model::geo
{
void symmetrize(const gmsh::vectorpair & dimTags, const double a, const double b, const double c, const double d) { begin(194); in(0, dimTags); in(1, a); in(2, b); in(3, c); in(4, d); }
}
namespace gmsh::model::geo
{
void copy(const gmsh::vectorpair & dimTags, gmsh::vectorpair & outDimTags) { begin(195); in(0, dimTags); out(1, outDimTags); }
}
namespace gmsh::model::geo
{
void remove(const gmsh::vectorpair & dimTags, const bool recursive) { begin(196); in(0, dimTags); in(1, recursive); }
}
namespace gmsh::model::geo
{
void removeAllDuplicates() { begin(197); }
}
namespace gmsh::model::geo
{
void splitCurve(const int tag, const std::vector<int> & pointTags, std::vector<int> & curveTags) { begin(198); in(0, tag); in(1, pointTags); out(2, curveTags); }
}
namespace gmsh::model::geo
{
int getMaxTag(const int dim) { begin(199); in(0, dim); return give<int>(); }
}
namespace gmsh::model::geo
{
void setMaxTag(const int dim, const int maxTag) { begin(200); in(0, dim); in(1, maxTag); }
}
namespace gmsh::model::geo
{
int addPhysicalGroup(const int dim, const std::vector<int> & tags, const int tag, const std::string & name) { begin(201); in(0, dim); in(1, tags); in(2, tag); in(3, name); return give<int>(); }
}
namespace gmsh::model::geo
{
void removePhysicalGroups(const gmsh::vectorpair & dimTags) { begin(202); in(0, dimTags); }
}
namespace gmsh::model::geo
{
void synchronize() { begin(203); }
}
namespace gmsh::model::geo::mesh
{
void setSize(const gmsh::vectorpair & dimTags, const double size) { begin(204); in(0, dimTags); in(1, size); }
}
namespace gmsh::model::geo::mesh
{
void setTransfiniteCurve(const int tag, const int nPoints, const std::string & meshType, const double coef) { begin(205); in(0, tag); in(1, nPoints); in(2, meshType); in(3, coef); }
}
namespace gmsh::model::geo::mesh
{
void setTransfiniteSurface(const int tag, const std::string & arrangement, const std::vector<int> & cornerTags) { begin(206); in(0, tag); in(1, arrangement); in(2, cornerTags); }
}
namespace gmsh::model::geo::mesh
{
void setTransfiniteVolume(const int tag, const std::vector<int> & cornerTags) { begin(207); in(0, tag); in(1, cornerTags); }
}
namespace gmsh::model::geo::mesh
{
void setRecombine(const int dim, const int tag, const double angle) { begin(208); in(0, dim); in(1, tag); in(2, angle); }
}
namespace gmsh::model::geo::mesh
{
void setSmoothing(const int dim, const int tag, const int val) { begin(209); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::geo::mesh
{
void setReverse(const int dim, const int tag, const bool val) { begin(210); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::geo::mesh
{
void setAlgorithm(const int dim, const int tag, const int val) { begin(211); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::geo::mesh
{
void setSizeFromBoundary(const int dim, const int tag, const int val) { begin(212); in(0, dim); in(1, tag); in(2, val); }
}
namespace gmsh::model::occ
{
int addPoint(const double x, const double y, const double z, const double meshSize, const int tag) { begin(213); in(0, x); in(1, y); in(2, z); in(3, meshSize); in(4, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addLine(const int startTag, const int endTag, const int tag) { begin(214); in(0, startTag); in(1, endTag); in(2, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addCircleArc(const int startTag, const int middleTag, const int endTag, const int tag, const bool center) { begin(215); in(0, startTag); in(1, middleTag); in(2, endTag); in(3, tag); in(4, center); return give<int>(); }
}
namespace gmsh::model::occ
{
int addCircle(const double x, const double y, const double z, const double r, const int tag, const double angle1, const double angle2, const std::vector<double> & zAxis, const std::vector<double> & xAxis) { begin(216); in(0, x); in(1, y); in(2, z); in(3, r); in(4, tag); in(5, angle1); in(6, angle2); in(7, zAxis); in(8, xAxis); return give<int>(); }
}
namespace gmsh::model::occ
{
int addEllipseArc(const int startTag, const int centerTag, const int majorTag, const int endTag, const int tag) { begin(217); in(0, startTag); in(1, centerTag); in(2, majorTag); in(3, endTag); in(4, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addEllipse(const double x, const double y, const double z, const double r1, const double r2, const int tag, const double angle1, const double angle2, const std::vector<double> & zAxis, const std::vector<double> & xAxis) { begin(218); in(0, x); in(1, y); in(2, z); in(3, r1); in(4, r2); in(5, tag); in(6, angle1); in(7, angle2); in(8, zAxis); in(9, xAxis); return give<int>(); }
}
namespace gmsh::model::occ
{
int addSpline(const std::vector<int> &, const int, const std::vector<double> &) { return {}; }
}
namespace gmsh::model::occ
{
int addBSpline(const std::vector<int> & pointTags, const int tag, const int degree, const std::vector<double> & weights, const std::vector<double> & knots, const std::vector<int> & multiplicities) { begin(219); in(0, pointTags); in(1, tag); in(2, degree); in(3, weights); in(4, knots); in(5, multiplicities); return give<int>(); }
}
namespace gmsh::model::occ
{
int addBezier(const std::vector<int> & pointTags, const int tag) { begin(220); in(0, pointTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addWire(const std::vector<int> & curveTags, const int tag, const bool checkClosed) { begin(221); in(0, curveTags); in(1, tag); in(2, checkClosed); return give<int>(); }
}
namespace gmsh::model::occ
{
int addCurveLoop(const std::vector<int> & curveTags, const int tag) { begin(222); in(0, curveTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addRectangle(const double x, const double y, const double z, const double dx, const double dy, const int tag, const double roundedRadius) { begin(223); in(0, x); in(1, y); in(2, z); in(3, dx); in(4, dy); in(5, tag); in(6, roundedRadius); return give<int>(); }
}
namespace gmsh::model::occ
{
int addDisk(const double xc, const double yc, const double zc, const double rx, const double ry, const int tag, const std::vector<double> & zAxis, const std::vector<double> & xAxis) { begin(224); in(0, xc); in(1, yc); in(2, zc); in(3, rx); in(4, ry); in(5, tag); in(6, zAxis); in(7, xAxis); return give<int>(); }
}
namespace gmsh::model::occ
{
int addPlaneSurface(const std::vector<int> & wireTags, const int tag) { begin(225); in(0, wireTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addSurfaceFilling(const int wireTag, const int tag, const std::vector<int> & pointTags, const int degree, const int numPointsOnCurves, const int numIter, const bool anisotropic, const double tol2d, const double tol3d, const double tolAng, const double tolCurv, const int maxDegree, const int maxSegments) { begin(226); in(0, wireTag); in(1, tag); in(2, pointTags); in(3, degree); in(4, numPointsOnCurves); in(5, numIter); in(6, anisotropic); in(7, tol2d); in(8, tol3d); in(9, tolAng); in(10, tolCurv); in(11, maxDegree); in(12, maxSegments); return give<int>(); }
}
namespace gmsh::model::occ
{
int addBSplineFilling(const int wireTag, const int tag, const std::string & type) { begin(227); in(0, wireTag); in(1, tag); in(2, type); return give<int>(); }
}
namespace gmsh::model::occ
{
int addBezierFilling(const int wireTag, const int tag, const std::string & type) { begin(228); in(0, wireTag); in(1, tag); in(2, type); return give<int>(); }
}
namespace gmsh::model::occ
{
int addBSplineSurface(const std::vector<int> & pointTags, const int numPointsU, const int tag, const int degreeU, const int degreeV, const std::vector<double> & weights, const std::vector<double> & knotsU, const std::vector<double> & knotsV, const std::vector<int> & multiplicitiesU, const std::vector<int> & multiplicitiesV, const std::vector<int> & wireTags, const bool wire3D) { begin(229); in(0, pointTags); in(1, numPointsU); in(2, tag); in(3, degreeU); in(4, degreeV); in(5, weights); in(6, knotsU); in(7, knotsV); in(8, multiplicitiesU); in(9, multiplicitiesV); in(10, wireTags); in(11, wire3D); return give<int>(); }
}
namespace gmsh::model::occ
{
int addBezierSurface(const std::vector<int> & pointTags, const int numPointsU, const int tag, const std::vector<int> & wireTags, const bool wire3D) { begin(230); in(0, pointTags); in(1, numPointsU); in(2, tag); in(3, wireTags); in(4, wire3D); return give<int>(); }
}
namespace gmsh::model::occ
{
int addTrimmedSurface(const int surfaceTag, const std::vector<int> & wireTags, const bool wire3D, const int tag) { begin(231); in(0, surfaceTag); in(1, wireTags); in(2, wire3D); in(3, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addSurfaceLoop(const std::vector<int> & surfaceTags, const int tag, const bool sewing) { begin(232); in(0, surfaceTags); in(1, tag); in(2, sewing); return give<int>(); }
}
namespace gmsh::model::occ
{
int addVolume(const std::vector<int> & shellTags, const int tag) { begin(233); in(0, shellTags); in(1, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addSphere(const double xc, const double yc, const double zc, const double radius, const int tag, const double angle1, const double angle2, const double angle3) { begin(234); in(0, xc); in(1, yc); in(2, zc); in(3, radius); in(4, tag); in(5, angle1); in(6, angle2); in(7, angle3); return give<int>(); }
}
namespace gmsh::model::occ
{
int addBox(const double x, const double y, const double z, const double dx, const double dy, const double dz, const int tag) { begin(235); in(0, x); in(1, y); in(2, z); in(3, dx); in(4, dy); in(5, dz); in(6, tag); return give<int>(); }
}
namespace gmsh::model::occ
{
int addCylinder(const double x, const double y, const double z, const double dx, const double dy, const double dz, const double r, const int tag, const double angle) { begin(236); in(0, x); in(1, y); in(2, z); in(3, dx); in(4, dy); in(5, dz); in(6, r); in(7, tag); in(8, angle); return give<int>(); }
}
namespace gmsh::model::occ
{
int addCone(const double x, const double y, const double z, const double dx, const double dy, const double dz, const double r1, const double r2, const int tag, const double angle) { begin(237); in(0, x); in(1, y); in(2, z); in(3, dx); in(4, dy); in(5, dz); in(6, r1); in(7, r2); in(8, tag); in(9, angle); return give<int>(); }
}
namespace gmsh::model::occ
{
int addWedge(const double x, const double y, const double z, const double dx, const double dy, const double dz, const int tag, const double ltx, const std::vector<double> & zAxis) { begin(238); in(0, x); in(1, y); in(2, z); in(3, dx); in(4, dy); in(5, dz); in(6, tag); in(7, ltx); in(8, zAxis); return give<int>(); }
}
namespace gmsh::model::occ
{
int addTorus(const double x, const double y, const double z, const double r1, const double r2, const int tag, const double angle, const std::vector<double> & zAxis) { begin(239); in(0, x); in(1, y); in(2, z); in(3, r1); in(4, r2); in(5, tag); in(6, angle); in(7, zAxis); return give<int>(); }
}
namespace gmsh::model::occ
{
void addThruSections(const std::vector<int> &, gmsh::vectorpair &, const int, const bool, const bool, const int, const std::string &, const std::string &, const bool) {}
}
namespace gmsh::model::occ
{
void addThickSolid(const int volumeTag, const std::vector<int> & excludeSurfaceTags, const double offset, gmsh::vectorpair & outDimTags, const int tag) { begin(240); in(0, volumeTag); in(1, excludeSurfaceTags); in(2, offset); out(3, outDimTags); in(4, tag); }
}
namespace gmsh::model::occ
{
void extrude(const gmsh::vectorpair & dimTags, const double dx, const double dy, const double dz, gmsh::vectorpair & outDimTags, const std::vector<int> & numElements, const std::vector<double> & heights, const bool recombine) { begin(241); in(0, dimTags); in(1, dx); in(2, dy); in(3, dz); out(4, outDimTags); in(5, numElements); in(6, heights); in(7, recombine); }
}
namespace gmsh::model::occ
{
void revolve(const gmsh::vectorpair & dimTags, const double x, const double y, const double z, const double ax, const double ay, const double az, const double angle, gmsh::vectorpair & outDimTags, const std::vector<int> & numElements, const std::vector<double> & heights, const bool recombine) { begin(242); in(0, dimTags); in(1, x); in(2, y); in(3, z); in(4, ax); in(5, ay); in(6, az); in(7, angle); out(8, outDimTags); in(9, numElements); in(10, heights); in(11, recombine); }
}
namespace gmsh::model::occ
{
void addPipe(const gmsh::vectorpair & dimTags, const int wireTag, gmsh::vectorpair & outDimTags, const std::string & trihedron) { begin(243); in(0, dimTags); in(1, wireTag); out(2, outDimTags); in(3, trihedron); }
}
namespace gmsh::model::occ
{
void fillet(const std::vector<int> & volumeTags, const std::vector<int> & curveTags, const std::vector<double> & radii, gmsh::vectorpair & outDimTags, const bool removeVolume) { begin(244); in(0, volumeTags); in(1, curveTags); in(2, radii); out(3, outDimTags); in(4, removeVolume); }
}
namespace gmsh::model::occ
{
void chamfer(const std::vector<int> & volumeTags, const std::vector<int> & curveTags, const std::vector<int> & surfaceTags, const std::vector<double> & distances, gmsh::vectorpair & outDimTags, const bool removeVolume) { begin(245); in(0, volumeTags); in(1, curveTags); in(2, surfaceTags); in(3, distances); out(4, outDimTags); in(5, removeVolume); }
}
namespace gmsh::model::occ
{
void fuse(const gmsh::vectorpair & objectDimTags, const gmsh::vectorpair & toolDimTags, gmsh::vectorpair & outDimTags, std::vector<gmsh::vectorpair> & outDimTagsMap, const int tag, const bool removeObject, const bool removeTool) { begin(246); in(0, objectDimTags); in(1, toolDimTags); out(2, outDimTags); out(3, outDimTagsMap); in(4, tag); in(5, removeObject); in(6, removeTool); }
}
namespace gmsh::model::occ
{
void intersect(const gmsh::vectorpair & objectDimTags, const gmsh::vectorpair & toolDimTags, gmsh::vectorpair & outDimTags, std::vector<gmsh::vectorpair> & outDimTagsMap, const int tag, const bool removeObject, const bool removeTool) { begin(247); in(0, objectDimTags); in(1, toolDimTags); out(2, outDimTags); out(3, outDimTagsMap); in(4, tag); in(5, removeObject); in(6, removeTool); }
}
namespace gmsh::model::occ
{
void cut(const gmsh::vectorpair & objectDimTags, const gmsh::vectorpair & toolDimTags, gmsh::vectorpair & outDimTags, std::vector<gmsh::vectorpair> & outDimTagsMap, const int tag, const bool removeObject, const bool removeTool) { begin(248); in(0, objectDimTags); in(1, toolDimTags); out(2, outDimTags); out(3, outDimTagsMap); in(4, tag); in(5, removeObject); in(6, removeTool); }
}
namespace gmsh::model::occ
{
void fragment(const gmsh::vectorpair & objectDimTags, const gmsh::vectorpair & toolDimTags, gmsh::vectorpair & outDimTags, std::vector<gmsh::vectorpair> & outDimTagsMap, const int tag, const bool removeObject, const bool removeTool) { begin(249); in(0, objectDimTags); in(1, toolDimTags); out(2, outDimTags); out(3, outDimTagsMap); in(4, tag); in(5, removeObject); in(6, removeTool); }
}
namespace gmsh::model::occ
{
void translate(const gmsh::vectorpair & dimTags, const double dx, const double dy, const double dz) { begin(250); in(0, dimTags); in(1, dx); in(2, dy); in(3, dz); }
}
namespace gmsh::model::occ
{
void rotate(const gmsh::vectorpair & dimTags, const double x, const double y, const double z, const double ax, const double ay, const double az, const double angle) { begin(251); in(0, dimTags); in(1, x); in(2, y); in(3, z); in(4, ax); in(5, ay); in(6, az); in(7, angle); }
}
namespace gmsh::model::occ
{
void dilate(const gmsh::vectorpair & dimTags, const double x, const double y, const double z, const double a, const double b, const double c) { begin(252); in(0, dimTags); in(1, x); in(2, y); in(3, z); in(4, a); in(5, b); in(6, c); }
}
namespace gmsh::model::occ
{
void mirror(const gmsh::vectorpair & dimTags, const double a, const double b, const double c, const double d) { begin(253); in(0, dimTags); in(1, a); in(2, b); in(3, c); in(4, d); }
}
namespace gmsh::model::occ
{
void symmetrize(const gmsh::vectorpair & dimTags, const double a, const double b, const double c, const double d) { begin(254); in(0, dimTags); in(1, a); in(2, b); in(3, c); in(4, d); }
}
namespace gmsh::model::occ
{
void affineTransform(const gmsh::vectorpair & dimTags, const std::vector<double> & affineTransform) { begin(255); in(0, dimTags); in(1, affineTransform); }
}
namespace gmsh::model::occ
{
void copy(const gmsh::vectorpair & dimTags, gmsh::vectorpair & outDimTags) { begin(256); in(0, dimTags); out(1, outDimTags); }
}
namespace gmsh::model::occ
{
void remove(const gmsh::vectorpair & dimTags, const bool recursive) { begin(257); in(0, dimTags); in(1, recursive); }
}
namespace gmsh::model::occ
{
void removeAllDuplicates() { begin(258); }
}
namespace gmsh::model::occ
{
void healShapes(gmsh::vectorpair & outDimTags, const gmsh::vectorpair & dimTags, const double tolerance, const bool fixDegenerated, const bool fixSmallEdges, const bool fixSmallFaces, const bool sewFaces, const bool makeSolids) { begin(259); out(0, outDimTags); in(1, dimTags); in(2, tolerance); in(3, fixDegenerated); in(4, fixSmallEdges); in(5, fixSmallFaces); in(6, sewFaces); in(7, makeSolids); }
}
namespace gmsh::model::occ
{
void convertToNURBS(const gmsh::vectorpair & dimTags) { begin(260); in(0, dimTags); }
}
namespace gmsh::model::occ
{
void importShapes(const std::string & fileName, gmsh::vectorpair & outDimTags, const bool highestDimOnly, const std::string & format) { begin(261); in(0, fileName); out(1, outDimTags); in(2, highestDimOnly); in(3, format); }
}
namespace gmsh::model::occ
{
void importShapesNativePointer(const void *, gmsh::vectorpair &, const bool) {}
}
namespace gmsh::model::occ
{
void getEntities(gmsh::vectorpair & dimTags, const int dim) { begin(262); out(0, dimTags); in(1, dim); }
}
namespace gmsh::model::occ
{
void getEntitiesInBoundingBox(const double xmin, const double ymin, const double zmin, const double xmax, const double ymax, const double zmax, gmsh::vectorpair & dimTags, const int dim) { begin(263); in(0, xmin); in(1, ymin); in(2, zmin); in(3, xmax); in(4, ymax); in(5, zmax); out(6, dimTags); in(7, dim); }
}
namespace gmsh::model::occ
{
void getBoundingBox(const int dim, const int tag, double & xmin, double & ymin, double & zmin, double & xmax, double & ymax, double & zmax) { begin(264); in(0, dim); in(1, tag); out(2, xmin); out(3, ymin); out(4, zmin); out(5, xmax); out(6, ymax); out(7, zmax); }
}
namespace gmsh::model::occ
{
void getCurveLoops(const int surfaceTag, std::vector<int> & curveLoopTags, std::vector<std::vector<int> > & curveTags) { begin(265); in(0, surfaceTag); out(1, curveLoopTags); out(2, curveTags); }
}
namespace gmsh::model::occ
{
void getSurfaceLoops(const int volumeTag, std::vector<int> & surfaceLoopTags, std::vector<std::vector<int> > & surfaceTags) { begin(266); in(0, volumeTag); out(1, surfaceLoopTags); out(2, surfaceTags); }
}
namespace gmsh::model::occ
{
void getMass(const int dim, const int tag, double & mass) { begin(267); in(0, dim); in(1, tag); out(2, mass); }
}
namespace gmsh::model::occ
{
void getCenterOfMass(const int dim, const int tag, double & x, double & y, double & z) { begin(268); in(0, dim); in(1, tag); out(2, x); out(3, y); out(4, z); }
}
namespace gmsh::model::occ
{
void getMatrixOfInertia(const int dim, const int tag, std::vector<double> & mat) { begin(269); in(0, dim); in(1, tag); out(2, mat); }
}
namespace gmsh::model::occ
{
int getMaxTag(const int dim) { begin(270); in(0, dim); return give<int>(); }
}
namespace gmsh::model::occ
{
void setMaxTag(const int dim, const int maxTag) { begin(271); in(0, dim); in(1, maxTag); }
}
namespace gmsh::model::occ
{
void synchronize() { begin(272); }
}
namespace gmsh::model::occ::mesh
{
void setSize(const gmsh::vectorpair & dimTags, const double size) { begin(273); in(0, dimTags); in(1, size); }
}
namespace gmsh::view
{
int add(const std::string & name, const int tag) { begin(274); in(0, name); in(1, tag); return give<int>(); }
}
namespace gmsh::view
{
void remove(const int tag) { begin(275); in(0, tag); }
}
namespace gmsh::view
{
int getIndex(const int tag) { begin(276); in(0, tag); return give<int>(); }
}
namespace gmsh::view
{
void getTags(std::vector<int> & tags) { begin(277); out(0, tags); }
}
namespace gmsh::view
{
void addModelData(const int tag, const int step, const std::string & modelName, const std::string & dataType, const std::vector<std::size_t> & tags, const std::vector<std::vector<double> > & data, const double time, const int numComponents, const int partition) { begin(278); in(0, tag); in(1, step); in(2, modelName); in(3, dataType); in(4, tags); in(5, data); in(6, time); in(7, numComponents); in(8, partition); }
}
namespace gmsh::view
{
void addHomogeneousModelData(const int tag, const int step, const std::string & modelName, const std::string & dataType, const std::vector<std::size_t> & tags, const std::vector<double> & data, const double time, const int numComponents, const int partition) { begin(279); in(0, tag); in(1, step); in(2, modelName); in(3, dataType); in(4, tags); in(5, data); in(6, time); in(7, numComponents); in(8, partition); }
}
namespace gmsh::view
{
void getModelData(const int tag, const int step, std::string & dataType, std::vector<std::size_t> & tags, std::vector<std::vector<double> > & data, double & time, int & numComponents) { begin(280); in(0, tag); in(1, step); out(2, dataType); out(3, tags); out(4, data); out(5, time); out(6, numComponents); }
}
namespace gmsh::view
{
void getHomogeneousModelData(const int tag, const int step, std::string & dataType, std::vector<std::size_t> & tags, std::vector<double> & data, double & time, int & numComponents) { begin(281); in(0, tag); in(1, step); out(2, dataType); out(3, tags); out(4, data); out(5, time); out(6, numComponents); }
}
namespace gmsh::view
{
void addListData(const int tag, const std::string & dataType, const int numEle, const std::vector<double> & data) { begin(282); in(0, tag); in(1, dataType); in(2, numEle); in(3, data); }
}
namespace gmsh::view
{
void getListData(const int tag, std::vector<std::string> & dataType, std::vector<int> & numElements, std::vector<std::vector<double> > & data, const bool returnAdaptive) { begin(283); in(0, tag); out(1, dataType); out(2, numElements); out(3, data); in(4, returnAdaptive); }
}
namespace gmsh::view
{
void addListDataString(const int tag, const std::vector<double> & coord, const std::vector<std::string> & data, const std::vector<std::string> & style) { begin(284); in(0, tag); in(1, coord); in(2, data); in(3, style); }
}
namespace gmsh::view
{
void getListDataStrings(const int tag, const int dim, std::vector<double> & coord, std::vector<std::string> & data, std::vector<std::string> & style) { begin(285); in(0, tag); in(1, dim); out(2, coord); out(3, data); out(4, style); }
}
namespace gmsh::view
{
void setInterpolationMatrices(const int tag, const std::string & type, const int d, const std::vector<double> & coef, const std::vector<double> & exp, const int dGeo, const std::vector<double> & coefGeo, const std::vector<double> & expGeo) { begin(286); in(0, tag); in(1, type); in(2, d); in(3, coef); in(4, exp); in(5, dGeo); in(6, coefGeo); in(7, expGeo); }
}
namespace gmsh::view
{
int addAlias(const int refTag, const bool copyOptions, const int tag) { begin(287); in(0, refTag); in(1, copyOptions); in(2, tag); return give<int>(); }
}
namespace gmsh::view
{
void combine(const std::string & what, const std::string & how, const bool remove, const bool copyOptions) { begin(288); in(0, what); in(1, how); in(2, remove); in(3, copyOptions); }
}
namespace gmsh::view
{
void probe(const int tag, const double x, const double y, const double z, std::vector<double> & values, double & distance, const int step, const int numComp, const bool gradient, const double distanceMax, const std::vector<double> & xElemCoord, const std::vector<double> & yElemCoord, const std::vector<double> & zElemCoord, const int dim) { begin(289); in(0, tag); in(1, x); in(2, y); in(3, z); out(4, values); out(5, distance); in(6, step); in(7, numComp); in(8, gradient); in(9, distanceMax); in(10, xElemCoord); in(11, yElemCoord); in(12, zElemCoord); in(13, dim); }
}
namespace gmsh::view
{
void write(const int tag, const std::string & fileName, const bool append) { begin(290); in(0, tag); in(1, fileName); in(2, append); }
}
namespace gmsh::view
{
void setVisibilityPerWindow(const int tag, const int value, const int windowIndex) { begin(291); in(0, tag); in(1, value); in(2, windowIndex); }
}
namespace gmsh::view::option
{
void setNumber(const int tag, const std::string & name, const double value) { begin(292); in(0, tag); in(1, name); in(2, value); }
}
namespace gmsh::view::option
{
void getNumber(const int tag, const std::string & name, double & value) { begin(293); in(0, tag); in(1, name); out(2, value); }
}
namespace gmsh::view::option
{
void setString(const int tag, const std::string & name, const std::string & value) { begin(294); in(0, tag); in(1, name); in(2, value); }
}
namespace gmsh::view::option
{
void getString(const int tag, const std::string & name, std::string & value) { begin(295); in(0, tag); in(1, name); out(2, value); }
}
namespace gmsh::view::option
{
void setColor(const int tag, const std::string & name, const int r, const int g, const int b, const int a) { begin(296); in(0, tag); in(1, name); in(2, r); in(3, g); in(4, b); in(5, a); }
}
namespace gmsh::view::option
{
void getColor(const int tag, const std::string & name, int & r, int & g, int & b, int & a) { begin(297); in(0, tag); in(1, name); out(2, r); out(3, g); out(4, b); out(5, a); }
}
namespace gmsh::view::option
{
void copy(const int refTag, const int tag) { begin(298); in(0, refTag); in(1, tag); }
}
namespace gmsh::plugin
{
void setNumber(const std::string & name, const std::string & option, const double value) { begin(299); in(0, name); in(1, option); in(2, value); }
}
namespace gmsh::plugin
{
void setString(const std::string & name, const std::string & option, const std::string & value) { begin(300); in(0, name); in(1, option); in(2, value); }
}
namespace gmsh::plugin
{
int run(const std::string & name) { begin(301); in(0, name); return give<int>(); }
}
namespace gmsh::graphics
{
void draw() { begin(302); }
}
namespace gmsh::fltk
{
void initialize() { begin(303); }
}
namespace gmsh::fltk
{
void finalize() { begin(304); }
}
namespace gmsh::fltk
{
void wait(const double time) { begin(305); in(0, time); }
}
namespace gmsh::fltk
{
void update() { begin(306); }
}
namespace gmsh::fltk
{
void awake(const std::string & action) { begin(307); in(0, action); }
}
namespace gmsh::fltk
{
void lock() { begin(308); }
}
namespace gmsh::fltk
{
void unlock() { begin(309); }
}
namespace gmsh::fltk
{
void run() { begin(310); }
}
namespace gmsh::fltk
{
int isAvailable() { begin(311); return give<int>(); }
}
namespace gmsh::fltk
{
int selectEntities(gmsh::vectorpair & dimTags, const int dim) { begin(312); out(0, dimTags); in(1, dim); return give<int>(); }
}
namespace gmsh::fltk
{
int selectElements(std::vector<std::size_t> & elementTags) { begin(313); out(0, elementTags); return give<int>(); }
}
namespace gmsh::fltk
{
int selectViews(std::vector<int> & viewTags) { begin(314); out(0, viewTags); return give<int>(); }
}
namespace gmsh::fltk
{
void splitCurrentWindow(const std::string & how, const double ratio) { begin(315); in(0, how); in(1, ratio); }
}
namespace gmsh::fltk
{
void setCurrentWindow(const int windowIndex) { begin(316); in(0, windowIndex); }
}
namespace gmsh::fltk
{
void setStatusMessage(const std::string & message, const bool graphics) { begin(317); in(0, message); in(1, graphics); }
}
namespace gmsh::fltk
{
void showContextWindow(const int dim, const int tag) { begin(318); in(0, dim); in(1, tag); }
}
namespace gmsh::fltk
{
void openTreeItem(const std::string & name) { begin(319); in(0, name); }
}
namespace gmsh::fltk
{
void closeTreeItem(const std::string & name) { begin(320); in(0, name); }
}
namespace gmsh::parser
{
void getNames(std::vector<std::string> & names, const std::string & search) { begin(321); out(0, names); in(1, search); }
}
namespace gmsh::parser
{
void setNumber(const std::string & name, const std::vector<double> & value) { begin(322); in(0, name); in(1, value); }
}
namespace gmsh::parser
{
void setString(const std::string & name, const std::vector<std::string> & value) { begin(323); in(0, name); in(1, value); }
}
namespace gmsh::parser
{
void getNumber(const std::string & name, std::vector<double> & value) { begin(324); in(0, name); out(1, value); }
}
namespace gmsh::parser
{
void getString(const std::string & name, std::vector<std::string> & value) { begin(325); in(0, name); out(1, value); }
}
namespace gmsh::parser
{
void clear(const std::string & name) { begin(326); in(0, name); }
}
namespace gmsh::parser
{
void parse(const std::string & fileName) { begin(327); in(0, fileName); }
}
namespace gmsh::onelab
{
void set(const std::string & data, const std::string & format) { begin(328); in(0, data); in(1, format); }
}
namespace gmsh::onelab
{
void get(std::string & data, const std::string & name, const std::string & format) { begin(329); out(0, data); in(1, name); in(2, format); }
}
namespace gmsh::onelab
{
void getNames(std::vector<std::string> & names, const std::string & search) { begin(330); out(0, names); in(1, search); }
}
namespace gmsh::onelab
{
void setNumber(const std::string & name, const std::vector<double> & value) { begin(331); in(0, name); in(1, value); }
}
namespace gmsh::onelab
{
void setString(const std::string & name, const std::vector<std::string> & value) { begin(332); in(0, name); in(1, value); }
}
namespace gmsh::onelab
{
void getNumber(const std::string & name, std::vector<double> & value) { begin(333); in(0, name); out(1, value); }
}
namespace gmsh::onelab
{
void getString(const std::string & name, std::vector<std::string> & value) { begin(334); in(0, name); out(1, value); }
}
namespace gmsh::onelab
{
int getChanged(const std::string & name) { begin(335); in(0, name); return give<int>(); }
}
namespace gmsh::onelab
{
void setChanged(const std::string & name, const int value) { begin(336); in(0, name); in(1, value); }
}
namespace gmsh::onelab
{
void clear(const std::string & name) { begin(337); in(0, name); }
}
namespace gmsh::onelab
{
void run(const std::string & name, const std::string & command) { begin(338); in(0, name); in(1, command); }
}
namespace gmsh::logger
{
void write(const std::string & message, const std::string & level) { begin(339); in(0, message); in(1, level); }
}
namespace gmsh::logger
{
void start() { begin(340); }
}
namespace gmsh::logger
{
void get(std::vector<std::string> & log) { begin(341); out(0, log); }
}
namespace gmsh::logger
{
void stop() { begin(342); }
}
namespace gmsh::logger
{
double getWallTime() { begin(343); return give<double>(); }
}
namespace gmsh::logger
{
double getCpuTime() { begin(344); return give<double>(); }
}
namespace gmsh::logger
{
void getLastError(std::string & error) { begin(345); out(0, error); }
}
// Calls
static void call0()
{
  expect(0);
  auto const r = um2::gmsh::isInitialized();
  called();
  returned(r);
}
static void call1()
{
  expect(1);
  um2::gmsh::finalize();
  called();
}
static void call2()
{
  expect(2);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::open(a0);
  called();
}
static void call3()
{
  expect(3);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::merge(a0);
  called();
}
static void call4()
{
  expect(4);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::write(a0);
  called();
}
static void call5()
{
  expect(5);
  um2::gmsh::clear();
  called();
}
static void call6()
{
  expect(6);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  um2::gmsh::option::setNumber(a0, a1);
  called();
}
static void call7()
{
  expect(7);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  double a1{};
  um2::gmsh::option::getNumber(a0, a1);
  called();
  received(1, a1);
}
static void call8()
{
  expect(8);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  um2::gmsh::option::setString(a0, a1);
  called();
}
static void call9()
{
  expect(9);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string a1{};
  um2::gmsh::option::getString(a0, a1);
  called();
  received(1, a1);
}
static void call10()
{
  expect(10);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  um2::gmsh::option::setColor(a0, a1, a2, a3, a4);
  called();
}
static void call11()
{
  expect(10);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = 255;
  pass(4, a4);
  um2::gmsh::option::setColor(a0, a1, a2, a3);
  called();
}
static void call12()
{
  expect(11);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int a1{};
  int a2{};
  int a3{};
  int a4{};
  um2::gmsh::option::getColor(a0, a1, a2, a3, a4);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call13()
{
  expect(12);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::model::add(a0);
  called();
}
static void call14()
{
  expect(13);
  um2::gmsh::model::remove();
  called();
}
static void call15()
{
  expect(14);
  std::vector<std::string> a0{};
  um2::gmsh::model::list(a0);
  called();
  received(0, a0);
}
static void call16()
{
  expect(15);
  std::string a0{};
  um2::gmsh::model::getCurrent(a0);
  called();
  received(0, a0);
}
static void call17()
{
  expect(16);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::model::setCurrent(a0);
  called();
}
static void call18()
{
  expect(17);
  std::string a0{};
  um2::gmsh::model::getFileName(a0);
  called();
  received(0, a0);
}
static void call19()
{
  expect(18);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::model::setFileName(a0);
  called();
}
static void call20()
{
  expect(19);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::getEntities(a0, a1);
  called();
  received(0, a0);
}
static void call21()
{
  expect(19);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = -1;
  pass(1, a1);
  um2::gmsh::model::getEntities(a0);
  called();
  received(0, a0);
}
static void call22()
{
  expect(20);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  um2::gmsh::model::setEntityName(a0, a1, a2);
  called();
}
static void call23()
{
  expect(21);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string a2{};
  um2::gmsh::model::getEntityName(a0, a1, a2);
  called();
  received(2, a2);
}
static void call24()
{
  expect(22);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::model::removeEntityName(a0);
  called();
}
static void call25()
{
  expect(23);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::getPhysicalGroups(a0, a1);
  called();
  received(0, a0);
}
static void call26()
{
  expect(23);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = -1;
  pass(1, a1);
  um2::gmsh::model::getPhysicalGroups(a0);
  called();
  received(0, a0);
}
static void call27()
{
  expect(24);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<int> a2{};
  um2::gmsh::model::getEntitiesForPhysicalGroup(a0, a1, a2);
  called();
  received(2, a2);
}
static void call28()
{
  expect(25);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<int> a2{};
  um2::gmsh::model::getPhysicalGroupsForEntity(a0, a1, a2);
  called();
  received(2, a2);
}
static void call29()
{
  expect(26);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  auto const r = um2::gmsh::model::addPhysicalGroup(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call30()
{
  expect(26);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  std::string const a3 = "";
  pass(3, a3);
  auto const r = um2::gmsh::model::addPhysicalGroup(a0, a1);
  called();
  returned(r);
}
static void call31()
{
  expect(27);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::removePhysicalGroups(a0);
  called();
}
static void call32()
{
  expect(27);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::removePhysicalGroups();
  called();
}
static void call33()
{
  expect(28);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  um2::gmsh::model::setPhysicalName(a0, a1, a2);
  called();
}
static void call34()
{
  expect(29);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string a2{};
  um2::gmsh::model::getPhysicalName(a0, a1, a2);
  called();
  received(2, a2);
}
static void call35()
{
  expect(30);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::model::removePhysicalName(a0);
  called();
}
static void call36()
{
  expect(31);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::setTag(a0, a1, a2);
  called();
}
static void call37()
{
  expect(32);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  bool const a2 = make<bool>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  um2::gmsh::model::getBoundary(a0, a1, a2, a3, a4);
  called();
  received(1, a1);
}
static void call38()
{
  expect(32);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  bool const a2 = true;
  pass(2, a2);
  bool const a3 = true;
  pass(3, a3);
  bool const a4 = false;
  pass(4, a4);
  um2::gmsh::model::getBoundary(a0, a1);
  called();
  received(1, a1);
}
static void call39()
{
  expect(33);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<int> a2{};
  std::vector<int> a3{};
  um2::gmsh::model::getAdjacencies(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call40()
{
  expect(34);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  std::vector<std::pair<int, int>> a6{};
  int const a7 = make<int>();
  pass(7, a7);
  um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(6, a6);
}
static void call41()
{
  expect(34);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  std::vector<std::pair<int, int>> a6{};
  int const a7 = -1;
  pass(7, a7);
  um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(6, a6);
}
static void call42()
{
  expect(35);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double a2{};
  double a3{};
  double a4{};
  double a5{};
  double a6{};
  double a7{};
  um2::gmsh::model::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
  received(7, a7);
}
static void call43()
{
  expect(36);
  auto const r = um2::gmsh::model::getDimension();
  called();
  returned(r);
}
static void call44()
{
  expect(37);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  auto const r = um2::gmsh::model::addDiscreteEntity(a0, a1, a2);
  called();
  returned(r);
}
static void call45()
{
  expect(37);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  std::vector<int> const a2 = std::vector<int>();
  pass(2, a2);
  auto const r = um2::gmsh::model::addDiscreteEntity(a0);
  called();
  returned(r);
}
static void call46()
{
  expect(38);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  um2::gmsh::model::removeEntities(a0, a1);
  called();
}
static void call47()
{
  expect(38);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  bool const a1 = false;
  pass(1, a1);
  um2::gmsh::model::removeEntities(a0);
  called();
}
static void call48()
{
  expect(39);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string a2{};
  um2::gmsh::model::getType(a0, a1, a2);
  called();
  received(2, a2);
}
static void call49()
{
  expect(40);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int a2{};
  int a3{};
  um2::gmsh::model::getParent(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call50()
{
  expect(41);
  auto const r = um2::gmsh::model::getNumberOfPartitions();
  called();
  returned(r);
}
static void call51()
{
  expect(42);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<int> a2{};
  um2::gmsh::model::getPartitions(a0, a1, a2);
  called();
  received(2, a2);
}
static void call52()
{
  expect(43);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<double> a3{};
  um2::gmsh::model::getValue(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call53()
{
  expect(44);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<double> a3{};
  um2::gmsh::model::getDerivative(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call54()
{
  expect(45);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<double> a3{};
  um2::gmsh::model::getSecondDerivative(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call55()
{
  expect(46);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<double> a3{};
  um2::gmsh::model::getCurvature(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call56()
{
  expect(47);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<double> a2{};
  std::vector<double> a3{};
  std::vector<double> a4{};
  std::vector<double> a5{};
  um2::gmsh::model::getPrincipalCurvatures(a0, a1, a2, a3, a4, a5);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
}
static void call57()
{
  expect(48);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<double> a2{};
  um2::gmsh::model::getNormal(a0, a1, a2);
  called();
  received(2, a2);
}
static void call58()
{
  expect(49);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<double> a3{};
  um2::gmsh::model::getParametrization(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call59()
{
  expect(50);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> a2{};
  std::vector<double> a3{};
  um2::gmsh::model::getParametrizationBounds(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call60()
{
  expect(51);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  auto const r = um2::gmsh::model::isInside(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call61()
{
  expect(51);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  bool const a3 = false;
  pass(3, a3);
  auto const r = um2::gmsh::model::isInside(a0, a1, a2);
  called();
  returned(r);
}
static void call62()
{
  expect(52);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<double> a3{};
  std::vector<double> a4{};
  um2::gmsh::model::getClosestPoint(a0, a1, a2, a3, a4);
  called();
  received(3, a3);
  received(4, a4);
}
static void call63()
{
  expect(53);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  std::vector<double> a4{};
  int const a5 = make<int>();
  pass(5, a5);
  um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4, a5);
  called();
  received(4, a4);
}
static void call64()
{
  expect(53);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  std::vector<double> a4{};
  int const a5 = 0;
  pass(5, a5);
  um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4);
  called();
  received(4, a4);
}
static void call65()
{
  expect(54);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  um2::gmsh::model::setVisibility(a0, a1, a2);
  called();
}
static void call66()
{
  expect(54);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  um2::gmsh::model::setVisibility(a0, a1);
  called();
}
static void call67()
{
  expect(55);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int a2{};
  um2::gmsh::model::getVisibility(a0, a1, a2);
  called();
  received(2, a2);
}
static void call68()
{
  expect(56);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::setVisibilityPerWindow(a0, a1);
  called();
}
static void call69()
{
  expect(56);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = 0;
  pass(1, a1);
  um2::gmsh::model::setVisibilityPerWindow(a0);
  called();
}
static void call70()
{
  expect(57);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  um2::gmsh::model::setColor(a0, a1, a2, a3, a4, a5);
  called();
}
static void call71()
{
  expect(57);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = 255;
  pass(4, a4);
  bool const a5 = false;
  pass(5, a5);
  um2::gmsh::model::setColor(a0, a1, a2, a3);
  called();
}
static void call72()
{
  expect(58);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int a2{};
  int a3{};
  int a4{};
  int a5{};
  um2::gmsh::model::getColor(a0, a1, a2, a3, a4, a5);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
}
static void call73()
{
  expect(59);
  int const a0 = make<int>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  um2::gmsh::model::setCoordinates(a0, a1, a2, a3);
  called();
}
static void call74()
{
  expect(60);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::model::mesh::generate(a0);
  called();
}
static void call75()
{
  expect(60);
  int const a0 = 3;
  pass(0, a0);
  um2::gmsh::model::mesh::generate();
  called();
}
static void call76()
{
  expect(61);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = make<std::vector<std::size_t>>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  um2::gmsh::model::mesh::partition(a0, a1, a2);
  called();
}
static void call77()
{
  expect(61);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = std::vector<std::size_t>();
  pass(1, a1);
  std::vector<int> const a2 = std::vector<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::partition(a0);
  called();
}
static void call78()
{
  expect(62);
  um2::gmsh::model::mesh::unpartition();
  called();
}
static void call79()
{
  expect(63);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::vector<std::pair<int, int>> const a3 = make<std::vector<std::pair<int, int>>>();
  pass(3, a3);
  um2::gmsh::model::mesh::optimize(a0, a1, a2, a3);
  called();
}
static void call80()
{
  expect(63);
  std::string const a0 = "";
  pass(0, a0);
  bool const a1 = false;
  pass(1, a1);
  int const a2 = 1;
  pass(2, a2);
  std::vector<std::pair<int, int>> const a3 = gmsh::vectorpair();
  pass(3, a3);
  um2::gmsh::model::mesh::optimize();
  called();
}
static void call81()
{
  expect(64);
  um2::gmsh::model::mesh::recombine();
  called();
}
static void call82()
{
  expect(65);
  um2::gmsh::model::mesh::refine();
  called();
}
static void call83()
{
  expect(66);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::model::mesh::setOrder(a0);
  called();
}
static void call84()
{
  expect(67);
  std::vector<std::pair<int, int>> a0{};
  um2::gmsh::model::mesh::getLastEntityError(a0);
  called();
  received(0, a0);
}
static void call85()
{
  expect(68);
  std::vector<std::size_t> a0{};
  um2::gmsh::model::mesh::getLastNodeError(a0);
  called();
  received(0, a0);
}
static void call86()
{
  expect(69);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::mesh::clear(a0);
  called();
}
static void call87()
{
  expect(69);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::mesh::clear();
  called();
}
static void call88()
{
  expect(70);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::mesh::reverse(a0);
  called();
}
static void call89()
{
  expect(70);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::mesh::reverse();
  called();
}
static void call90()
{
  expect(71);
  std::vector<double> const a0 = make<std::vector<double>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  um2::gmsh::model::mesh::affineTransform(a0, a1);
  called();
}
static void call91()
{
  expect(71);
  std::vector<double> const a0 = make<std::vector<double>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = gmsh::vectorpair();
  pass(1, a1);
  um2::gmsh::model::mesh::affineTransform(a0);
  called();
}
static void call92()
{
  expect(72);
  std::vector<std::size_t> a0{};
  std::vector<double> a1{};
  std::vector<double> a2{};
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(0, a0);
  received(1, a1);
  received(2, a2);
}
static void call93()
{
  expect(72);
  std::vector<std::size_t> a0{};
  std::vector<double> a1{};
  std::vector<double> a2{};
  int const a3 = -1;
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  bool const a5 = false;
  pass(5, a5);
  bool const a6 = true;
  pass(6, a6);
  um2::gmsh::model::mesh::getNodes(a0, a1, a2);
  called();
  received(0, a0);
  received(1, a1);
  received(2, a2);
}
static void call94()
{
  expect(73);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  std::vector<double> a2{};
  std::vector<double> a3{};
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4, a5);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
}
static void call95()
{
  expect(73);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  std::vector<double> a2{};
  std::vector<double> a3{};
  int const a4 = -1;
  pass(4, a4);
  bool const a5 = true;
  pass(5, a5);
  um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
}
static void call96()
{
  expect(74);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  std::vector<double> a1{};
  std::vector<double> a2{};
  int a3{};
  int a4{};
  um2::gmsh::model::mesh::getNode(a0, a1, a2, a3, a4);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call97()
{
  expect(75);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  um2::gmsh::model::mesh::setNode(a0, a1, a2);
  called();
}
static void call98()
{
  expect(76);
  bool const a0 = make<bool>();
  pass(0, a0);
  um2::gmsh::model::mesh::rebuildNodeCache(a0);
  called();
}
static void call99()
{
  expect(76);
  bool const a0 = true;
  pass(0, a0);
  um2::gmsh::model::mesh::rebuildNodeCache();
  called();
}
static void call100()
{
  expect(77);
  bool const a0 = make<bool>();
  pass(0, a0);
  um2::gmsh::model::mesh::rebuildElementCache(a0);
  called();
}
static void call101()
{
  expect(77);
  bool const a0 = true;
  pass(0, a0);
  um2::gmsh::model::mesh::rebuildElementCache();
  called();
}
static void call102()
{
  expect(78);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> a2{};
  std::vector<double> a3{};
  um2::gmsh::model::mesh::getNodesForPhysicalGroup(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call103()
{
  expect(79);
  std::size_t a0{};
  um2::gmsh::model::mesh::getMaxNodeTag(a0);
  called();
  received(0, a0);
}
static void call104()
{
  expect(80);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> const a2 = make<std::vector<std::size_t>>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  std::vector<double> const a4 = make<std::vector<double>>();
  pass(4, a4);
  um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3, a4);
  called();
}
static void call105()
{
  expect(80);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> const a2 = make<std::vector<std::size_t>>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  std::vector<double> const a4 = std::vector<double>();
  pass(4, a4);
  um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3);
  called();
}
static void call106()
{
  expect(81);
  um2::gmsh::model::mesh::reclassifyNodes();
  called();
}
static void call107()
{
  expect(82);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::mesh::relocateNodes(a0, a1);
  called();
}
static void call108()
{
  expect(82);
  int const a0 = -1;
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  um2::gmsh::model::mesh::relocateNodes();
  called();
}
static void call109()
{
  expect(83);
  std::vector<int> a0{};
  std::vector<std::vector<std::size_t> > a1{};
  std::vector<std::vector<std::size_t> > a2{};
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  um2::gmsh::model::mesh::getElements(a0, a1, a2, a3, a4);
  called();
  received(0, a0);
  received(1, a1);
  received(2, a2);
}
static void call110()
{
  expect(83);
  std::vector<int> a0{};
  std::vector<std::vector<std::size_t> > a1{};
  std::vector<std::vector<std::size_t> > a2{};
  int const a3 = -1;
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  um2::gmsh::model::mesh::getElements(a0, a1, a2);
  called();
  received(0, a0);
  received(1, a1);
  received(2, a2);
}
static void call111()
{
  expect(84);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  int a1{};
  std::vector<std::size_t> a2{};
  int a3{};
  int a4{};
  um2::gmsh::model::mesh::getElement(a0, a1, a2, a3, a4);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call112()
{
  expect(85);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  std::size_t a3{};
  int a4{};
  std::vector<std::size_t> a5{};
  double a6{};
  double a7{};
  double a8{};
  int const a9 = make<int>();
  pass(9, a9);
  bool const a10 = make<bool>();
  pass(10, a10);
  um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10);
  called();
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
  received(7, a7);
  received(8, a8);
}
static void call113()
{
  expect(85);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  std::size_t a3{};
  int a4{};
  std::vector<std::size_t> a5{};
  double a6{};
  double a7{};
  double a8{};
  int const a9 = -1;
  pass(9, a9);
  bool const a10 = false;
  pass(10, a10);
  um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
  received(7, a7);
  received(8, a8);
}
static void call114()
{
  expect(86);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  std::vector<std::size_t> a3{};
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4, a5);
  called();
  received(3, a3);
}
static void call115()
{
  expect(86);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  std::vector<std::size_t> a3{};
  int const a4 = -1;
  pass(4, a4);
  bool const a5 = false;
  pass(5, a5);
  um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call116()
{
  expect(87);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double a4{};
  double a5{};
  double a6{};
  um2::gmsh::model::mesh::getLocalCoordinatesInElement(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(4, a4);
  received(5, a5);
  received(6, a6);
}
static void call117()
{
  expect(88);
  std::vector<int> a0{};
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::getElementTypes(a0, a1, a2);
  called();
  received(0, a0);
}
static void call118()
{
  expect(88);
  std::vector<int> a0{};
  int const a1 = -1;
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  um2::gmsh::model::mesh::getElementTypes(a0);
  called();
  received(0, a0);
}
static void call119()
{
  expect(89);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  auto const r = um2::gmsh::model::mesh::getElementType(a0, a1, a2);
  called();
  returned(r);
}
static void call120()
{
  expect(89);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  auto const r = um2::gmsh::model::mesh::getElementType(a0, a1);
  called();
  returned(r);
}
static void call121()
{
  expect(90);
  int const a0 = make<int>();
  pass(0, a0);
  std::string a1{};
  int a2{};
  int a3{};
  int a4{};
  std::vector<double> a5{};
  int a6{};
  um2::gmsh::model::mesh::getElementProperties(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
}
static void call122()
{
  expect(91);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  std::vector<std::size_t> a2{};
  int const a3 = make<int>();
  pass(3, a3);
  std::size_t const a4 = make<std::size_t>();
  pass(4, a4);
  std::size_t const a5 = make<std::size_t>();
  pass(5, a5);
  um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4, a5);
  called();
  received(1, a1);
  received(2, a2);
}
static void call123()
{
  expect(91);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  std::vector<std::size_t> a2{};
  int const a3 = -1;
  pass(3, a3);
  std::size_t const a4 = 0;
  pass(4, a4);
  std::size_t const a5 = 1;
  pass(5, a5);
  um2::gmsh::model::mesh::getElementsByType(a0, a1, a2);
  called();
  received(1, a1);
  received(2, a2);
}
static void call124()
{
  expect(92);
  std::size_t a0{};
  um2::gmsh::model::mesh::getMaxElementTag(a0);
  called();
  received(0, a0);
}
static void call125()
{
  expect(93);
  int const a0 = make<int>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  std::vector<std::size_t> a3{};
  std::vector<std::size_t> a4{};
  int const a5 = make<int>();
  pass(5, a5);
  um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4, a5);
  called();
  received(3, a3);
  received(4, a4);
}
static void call126()
{
  expect(93);
  int const a0 = make<int>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  std::vector<std::size_t> a3{};
  std::vector<std::size_t> a4{};
  int const a5 = -1;
  pass(5, a5);
  um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4);
  called();
  received(3, a3);
  received(4, a4);
}
static void call127()
{
  expect(94);
  std::vector<std::size_t> const a0 = make<std::vector<std::size_t>>();
  pass(0, a0);
  std::vector<double> a1{};
  std::string const a2 = make<std::string>();
  pass(2, a2);
  std::size_t const a3 = make<std::size_t>();
  pass(3, a3);
  std::size_t const a4 = make<std::size_t>();
  pass(4, a4);
  um2::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3, a4);
  called();
  received(1, a1);
}
static void call128()
{
  expect(94);
  std::vector<std::size_t> const a0 = make<std::vector<std::size_t>>();
  pass(0, a0);
  std::vector<double> a1{};
  std::string const a2 = "minSICN";
  pass(2, a2);
  std::size_t const a3 = 0;
  pass(3, a3);
  std::size_t const a4 = 1;
  pass(4, a4);
  um2::gmsh::model::mesh::getElementQualities(a0, a1);
  called();
  received(1, a1);
}
static void call129()
{
  expect(95);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  std::vector<std::vector<std::size_t> > const a3 = make<std::vector<std::vector<std::size_t> >>();
  pass(3, a3);
  std::vector<std::vector<std::size_t> > const a4 = make<std::vector<std::vector<std::size_t> >>();
  pass(4, a4);
  um2::gmsh::model::mesh::addElements(a0, a1, a2, a3, a4);
  called();
}
static void call130()
{
  expect(96);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> const a2 = make<std::vector<std::size_t>>();
  pass(2, a2);
  std::vector<std::size_t> const a3 = make<std::vector<std::size_t>>();
  pass(3, a3);
  um2::gmsh::model::mesh::addElementsByType(a0, a1, a2, a3);
  called();
}
static void call131()
{
  expect(97);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<double> a2{};
  std::vector<double> a3{};
  um2::gmsh::model::mesh::getIntegrationPoints(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call132()
{
  expect(98);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<double> a2{};
  std::vector<double> a3{};
  std::vector<double> a4{};
  int const a5 = make<int>();
  pass(5, a5);
  std::size_t const a6 = make<std::size_t>();
  pass(6, a6);
  std::size_t const a7 = make<std::size_t>();
  pass(7, a7);
  um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call133()
{
  expect(98);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<double> a2{};
  std::vector<double> a3{};
  std::vector<double> a4{};
  int const a5 = -1;
  pass(5, a5);
  std::size_t const a6 = 0;
  pass(6, a6);
  std::size_t const a7 = 1;
  pass(7, a7);
  um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call134()
{
  expect(99);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  std::vector<double> a5{};
  std::vector<double> a6{};
  std::vector<double> a7{};
  int const a8 = make<int>();
  pass(8, a8);
  um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
  received(5, a5);
  received(6, a6);
  received(7, a7);
}
static void call135()
{
  expect(99);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  std::vector<double> a5{};
  std::vector<double> a6{};
  std::vector<double> a7{};
  int const a8 = -1;
  pass(8, a8);
  um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(5, a5);
  received(6, a6);
  received(7, a7);
}
static void call136()
{
  expect(100);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<double> a2{};
  std::vector<double> a3{};
  std::vector<double> a4{};
  um2::gmsh::model::mesh::getJacobian(a0, a1, a2, a3, a4);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call137()
{
  expect(101);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  int a3{};
  std::vector<double> a4{};
  int a5{};
  std::vector<int> const a6 = make<std::vector<int>>();
  pass(6, a6);
  um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(3, a3);
  received(4, a4);
  received(5, a5);
}
static void call138()
{
  expect(101);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  int a3{};
  std::vector<double> a4{};
  int a5{};
  std::vector<int> const a6 = std::vector<int>();
  pass(6, a6);
  um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5);
  called();
  received(3, a3);
  received(4, a4);
  received(5, a5);
}
static void call139()
{
  expect(102);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> a2{};
  int const a3 = make<int>();
  pass(3, a3);
  std::size_t const a4 = make<std::size_t>();
  pass(4, a4);
  std::size_t const a5 = make<std::size_t>();
  pass(5, a5);
  um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4, a5);
  called();
  received(2, a2);
}
static void call140()
{
  expect(102);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> a2{};
  int const a3 = -1;
  pass(3, a3);
  std::size_t const a4 = 0;
  pass(4, a4);
  std::size_t const a5 = 1;
  pass(5, a5);
  um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2);
  called();
  received(2, a2);
}
static void call141()
{
  expect(103);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int a2{};
  um2::gmsh::model::mesh::getBasisFunctionsOrientationForElement(a0, a1, a2);
  called();
  received(2, a2);
}
static void call142()
{
  expect(104);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  auto const r = um2::gmsh::model::mesh::getNumberOfOrientations(a0, a1);
  called();
  returned(r);
}
static void call143()
{
  expect(105);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> a1{};
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1, a2);
  called();
  received(1, a1);
}
static void call144()
{
  expect(105);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> a1{};
  int const a2 = -1;
  pass(2, a2);
  um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1);
  called();
  received(1, a1);
}
static void call145()
{
  expect(106);
  std::vector<std::size_t> const a0 = make<std::vector<std::size_t>>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  std::vector<int> a2{};
  um2::gmsh::model::mesh::getEdges(a0, a1, a2);
  called();
  received(1, a1);
  received(2, a2);
}
static void call146()
{
  expect(107);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = make<std::vector<std::size_t>>();
  pass(1, a1);
  std::vector<std::size_t> a2{};
  std::vector<int> a3{};
  um2::gmsh::model::mesh::getFaces(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call147()
{
  expect(108);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::mesh::createEdges(a0);
  called();
}
static void call148()
{
  expect(108);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::mesh::createEdges();
  called();
}
static void call149()
{
  expect(109);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::mesh::createFaces(a0);
  called();
}
static void call150()
{
  expect(109);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::mesh::createFaces();
  called();
}
static void call151()
{
  expect(110);
  std::vector<std::size_t> a0{};
  std::vector<std::size_t> a1{};
  um2::gmsh::model::mesh::getAllEdges(a0, a1);
  called();
  received(0, a0);
  received(1, a1);
}
static void call152()
{
  expect(111);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  std::vector<std::size_t> a2{};
  um2::gmsh::model::mesh::getAllFaces(a0, a1, a2);
  called();
  received(1, a1);
  received(2, a2);
}
static void call153()
{
  expect(112);
  std::vector<std::size_t> const a0 = make<std::vector<std::size_t>>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = make<std::vector<std::size_t>>();
  pass(1, a1);
  um2::gmsh::model::mesh::addEdges(a0, a1);
  called();
}
static void call154()
{
  expect(113);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = make<std::vector<std::size_t>>();
  pass(1, a1);
  std::vector<std::size_t> const a2 = make<std::vector<std::size_t>>();
  pass(2, a2);
  um2::gmsh::model::mesh::addFaces(a0, a1, a2);
  called();
}
static void call155()
{
  expect(114);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  int const a5 = make<int>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call156()
{
  expect(114);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  int const a5 = -1;
  pass(5, a5);
  bool const a6 = true;
  pass(6, a6);
  um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call157()
{
  expect(115);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  bool const a5 = make<bool>();
  pass(5, a5);
  um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4, a5);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call158()
{
  expect(115);
  std::size_t const a0 = make<std::size_t>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  bool const a5 = true;
  pass(5, a5);
  um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call159()
{
  expect(116);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  auto const r = um2::gmsh::model::mesh::getNumberOfKeys(a0, a1);
  called();
  returned(r);
}
static void call160()
{
  expect(117);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = make<std::vector<std::size_t>>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  std::vector<std::pair<int, int>> a4{};
  um2::gmsh::model::mesh::getKeysInformation(a0, a1, a2, a3, a4);
  called();
  received(4, a4);
}
static void call161()
{
  expect(118);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  std::vector<double> a4{};
  std::size_t const a5 = make<std::size_t>();
  pass(5, a5);
  std::size_t const a6 = make<std::size_t>();
  pass(6, a6);
  um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(4, a4);
}
static void call162()
{
  expect(118);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  std::vector<double> a4{};
  std::size_t const a5 = 0;
  pass(5, a5);
  std::size_t const a6 = 1;
  pass(6, a6);
  um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4);
  called();
  received(4, a4);
}
static void call163()
{
  expect(119);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> a1{};
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::preallocateBarycenters(a0, a1, a2);
  called();
  received(1, a1);
}
static void call164()
{
  expect(119);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> a1{};
  int const a2 = -1;
  pass(2, a2);
  um2::gmsh::model::mesh::preallocateBarycenters(a0, a1);
  called();
  received(1, a1);
}
static void call165()
{
  expect(120);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  int const a2 = make<int>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  std::size_t const a4 = make<std::size_t>();
  pass(4, a4);
  std::size_t const a5 = make<std::size_t>();
  pass(5, a5);
  um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4, a5);
  called();
  received(1, a1);
}
static void call166()
{
  expect(120);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  int const a2 = -1;
  pass(2, a2);
  bool const a3 = false;
  pass(3, a3);
  std::size_t const a4 = 0;
  pass(4, a4);
  std::size_t const a5 = 1;
  pass(5, a5);
  um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1);
  called();
  received(1, a1);
}
static void call167()
{
  expect(121);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> a2{};
  int const a3 = make<int>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  std::size_t const a5 = make<std::size_t>();
  pass(5, a5);
  std::size_t const a6 = make<std::size_t>();
  pass(6, a6);
  um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
}
static void call168()
{
  expect(121);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> a2{};
  int const a3 = -1;
  pass(3, a3);
  bool const a4 = false;
  pass(4, a4);
  std::size_t const a5 = 0;
  pass(5, a5);
  std::size_t const a6 = 1;
  pass(6, a6);
  um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2);
  called();
  received(2, a2);
}
static void call169()
{
  expect(122);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> a2{};
  std::vector<int> a3{};
  um2::gmsh::model::mesh::getGhostElements(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call170()
{
  expect(123);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  um2::gmsh::model::mesh::setSize(a0, a1);
  called();
}
static void call171()
{
  expect(124);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<double> a1{};
  um2::gmsh::model::mesh::getSizes(a0, a1);
  called();
  received(1, a1);
}
static void call172()
{
  expect(125);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  um2::gmsh::model::mesh::setSizeAtParametricPoints(a0, a1, a2, a3);
  called();
}
static void call173()
{
  expect(126);
  um2::gmsh::model::mesh::removeSizeCallback();
  called();
}
static void call174()
{
  expect(127);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2, a3);
  called();
}
static void call175()
{
  expect(127);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = "Progression";
  pass(2, a2);
  double const a3 = 1.;
  pass(3, a3);
  um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1);
  called();
}
static void call176()
{
  expect(128);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  um2::gmsh::model::mesh::setTransfiniteSurface(a0, a1, a2);
  called();
}
static void call177()
{
  expect(128);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = "Left";
  pass(1, a1);
  std::vector<int> const a2 = std::vector<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::setTransfiniteSurface(a0);
  called();
}
static void call178()
{
  expect(129);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  um2::gmsh::model::mesh::setTransfiniteVolume(a0, a1);
  called();
}
static void call179()
{
  expect(129);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = std::vector<int>();
  pass(1, a1);
  um2::gmsh::model::mesh::setTransfiniteVolume(a0);
  called();
}
static void call180()
{
  expect(130);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  um2::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1, a2);
  called();
}
static void call181()
{
  expect(130);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  double const a1 = 2.35;
  pass(1, a1);
  bool const a2 = true;
  pass(2, a2);
  um2::gmsh::model::mesh::setTransfiniteAutomatic();
  called();
}
static void call182()
{
  expect(131);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  um2::gmsh::model::mesh::setRecombine(a0, a1, a2);
  called();
}
static void call183()
{
  expect(131);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double const a2 = 45.;
  pass(2, a2);
  um2::gmsh::model::mesh::setRecombine(a0, a1);
  called();
}
static void call184()
{
  expect(132);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::setSmoothing(a0, a1, a2);
  called();
}
static void call185()
{
  expect(133);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  um2::gmsh::model::mesh::setReverse(a0, a1, a2);
  called();
}
static void call186()
{
  expect(133);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = true;
  pass(2, a2);
  um2::gmsh::model::mesh::setReverse(a0, a1);
  called();
}
static void call187()
{
  expect(134);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::setAlgorithm(a0, a1, a2);
  called();
}
static void call188()
{
  expect(135);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::mesh::setSizeFromBoundary(a0, a1, a2);
  called();
}
static void call189()
{
  expect(136);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  um2::gmsh::model::mesh::setCompound(a0, a1);
  called();
}
static void call190()
{
  expect(137);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::model::mesh::setOutwardOrientation(a0);
  called();
}
static void call191()
{
  expect(138);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::mesh::removeConstraints(a0);
  called();
}
static void call192()
{
  expect(138);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::mesh::removeConstraints();
  called();
}
static void call193()
{
  expect(139);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  um2::gmsh::model::mesh::embed(a0, a1, a2, a3);
  called();
}
static void call194()
{
  expect(140);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::mesh::removeEmbedded(a0, a1);
  called();
}
static void call195()
{
  expect(140);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  um2::gmsh::model::mesh::removeEmbedded(a0);
  called();
}
static void call196()
{
  expect(141);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  um2::gmsh::model::mesh::getEmbedded(a0, a1, a2);
  called();
  received(2, a2);
}
static void call197()
{
  expect(142);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::size_t> const a2 = make<std::vector<std::size_t>>();
  pass(2, a2);
  um2::gmsh::model::mesh::reorderElements(a0, a1, a2);
  called();
}
static void call198()
{
  expect(143);
  std::vector<std::size_t> const a0 = std::vector<std::size_t>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = std::vector<std::size_t>();
  pass(1, a1);
  um2::gmsh::model::mesh::renumberNodes();
  called();
}
static void call199()
{
  expect(143);
  std::vector<std::size_t> const a0 = std::vector<std::size_t>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = std::vector<std::size_t>();
  pass(1, a1);
  um2::gmsh::model::mesh::renumberNodes();
  called();
}
static void call200()
{
  expect(144);
  std::vector<std::size_t> const a0 = std::vector<std::size_t>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = std::vector<std::size_t>();
  pass(1, a1);
  um2::gmsh::model::mesh::renumberElements();
  called();
}
static void call201()
{
  expect(144);
  std::vector<std::size_t> const a0 = std::vector<std::size_t>();
  pass(0, a0);
  std::vector<std::size_t> const a1 = std::vector<std::size_t>();
  pass(1, a1);
  um2::gmsh::model::mesh::renumberElements();
  called();
}
static void call202()
{
  expect(145);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  um2::gmsh::model::mesh::setPeriodic(a0, a1, a2, a3);
  called();
}
static void call203()
{
  expect(146);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<int> a2{};
  um2::gmsh::model::mesh::getPeriodic(a0, a1, a2);
  called();
  received(2, a2);
}
static void call204()
{
  expect(147);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int a2{};
  std::vector<std::size_t> a3{};
  std::vector<std::size_t> a4{};
  std::vector<double> a5{};
  bool const a6 = make<bool>();
  pass(6, a6);
  um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
}
static void call205()
{
  expect(147);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int a2{};
  std::vector<std::size_t> a3{};
  std::vector<std::size_t> a4{};
  std::vector<double> a5{};
  bool const a6 = false;
  pass(6, a6);
  um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
}
static void call206()
{
  expect(148);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int a3{};
  std::vector<int> a4{};
  std::vector<int> a5{};
  std::vector<std::size_t> a6{};
  std::vector<std::size_t> a7{};
  std::vector<double> a8{};
  std::vector<double> a9{};
  bool const a10 = make<bool>();
  pass(10, a10);
  um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10);
  called();
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
  received(7, a7);
  received(8, a8);
  received(9, a9);
}
static void call207()
{
  expect(148);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int a3{};
  std::vector<int> a4{};
  std::vector<int> a5{};
  std::vector<std::size_t> a6{};
  std::vector<std::size_t> a7{};
  std::vector<double> a8{};
  std::vector<double> a9{};
  bool const a10 = true;
  pass(10, a10);
  um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
  called();
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
  received(7, a7);
  received(8, a8);
  received(9, a9);
}
static void call208()
{
  expect(149);
  um2::gmsh::model::mesh::importStl();
  called();
}
static void call209()
{
  expect(150);
  std::vector<std::size_t> a0{};
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  um2::gmsh::model::mesh::getDuplicateNodes(a0, a1);
  called();
  received(0, a0);
}
static void call210()
{
  expect(150);
  std::vector<std::size_t> a0{};
  std::vector<std::pair<int, int>> const a1 = gmsh::vectorpair();
  pass(1, a1);
  um2::gmsh::model::mesh::getDuplicateNodes(a0);
  called();
  received(0, a0);
}
static void call211()
{
  expect(151);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::mesh::removeDuplicateNodes(a0);
  called();
}
static void call212()
{
  expect(151);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::mesh::removeDuplicateNodes();
  called();
}
static void call213()
{
  expect(152);
  double const a0 = make<double>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::mesh::splitQuadrangles(a0, a1);
  called();
}
static void call214()
{
  expect(152);
  double const a0 = 1.;
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  um2::gmsh::model::mesh::splitQuadrangles();
  called();
}
static void call215()
{
  expect(153);
  std::vector<std::size_t> const a0 = make<std::vector<std::size_t>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::mesh::setVisibility(a0, a1);
  called();
}
static void call216()
{
  expect(154);
  double const a0 = make<double>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3, a4);
  called();
}
static void call217()
{
  expect(154);
  double const a0 = make<double>();
  pass(0, a0);
  bool const a1 = true;
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  double const a3 = M_PI;
  pass(3, a3);
  bool const a4 = true;
  pass(4, a4);
  um2::gmsh::model::mesh::classifySurfaces(a0);
  called();
}
static void call218()
{
  expect(155);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::mesh::createGeometry(a0);
  called();
}
static void call219()
{
  expect(155);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::mesh::createGeometry();
  called();
}
static void call220()
{
  expect(156);
  bool const a0 = make<bool>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  um2::gmsh::model::mesh::createTopology(a0, a1);
  called();
}
static void call221()
{
  expect(156);
  bool const a0 = true;
  pass(0, a0);
  bool const a1 = true;
  pass(1, a1);
  um2::gmsh::model::mesh::createTopology();
  called();
}
static void call222()
{
  expect(157);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  std::vector<int> const a3 = make<std::vector<int>>();
  pass(3, a3);
  um2::gmsh::model::mesh::addHomologyRequest(a0, a1, a2, a3);
  called();
}
static void call223()
{
  expect(157);
  std::string const a0 = "Homology";
  pass(0, a0);
  std::vector<int> const a1 = std::vector<int>();
  pass(1, a1);
  std::vector<int> const a2 = std::vector<int>();
  pass(2, a2);
  std::vector<int> const a3 = std::vector<int>();
  pass(3, a3);
  um2::gmsh::model::mesh::addHomologyRequest();
  called();
}
static void call224()
{
  expect(158);
  um2::gmsh::model::mesh::clearHomologyRequests();
  called();
}
static void call225()
{
  expect(159);
  std::vector<int> a0{};
  um2::gmsh::model::mesh::computeCrossField(a0);
  called();
  received(0, a0);
}
static void call226()
{
  expect(160);
  std::vector<double> const a0 = make<std::vector<double>>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  um2::gmsh::model::mesh::triangulate(a0, a1);
  called();
  received(1, a1);
}
static void call227()
{
  expect(161);
  std::vector<double> const a0 = make<std::vector<double>>();
  pass(0, a0);
  std::vector<std::size_t> a1{};
  um2::gmsh::model::mesh::tetrahedralize(a0, a1);
  called();
  received(1, a1);
}
static void call228()
{
  expect(162);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::mesh::field::add(a0, a1);
  called();
  returned(r);
}
static void call229()
{
  expect(162);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::mesh::field::add(a0);
  called();
  returned(r);
}
static void call230()
{
  expect(163);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::model::mesh::field::remove(a0);
  called();
}
static void call231()
{
  expect(164);
  std::vector<int> a0{};
  um2::gmsh::model::mesh::field::list(a0);
  called();
  received(0, a0);
}
static void call232()
{
  expect(165);
  int const a0 = make<int>();
  pass(0, a0);
  std::string a1{};
  um2::gmsh::model::mesh::field::getType(a0, a1);
  called();
  received(1, a1);
}
static void call233()
{
  expect(166);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  um2::gmsh::model::mesh::field::setNumber(a0, a1, a2);
  called();
}
static void call234()
{
  expect(167);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  double a2{};
  um2::gmsh::model::mesh::field::getNumber(a0, a1, a2);
  called();
  received(2, a2);
}
static void call235()
{
  expect(168);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  um2::gmsh::model::mesh::field::setString(a0, a1, a2);
  called();
}
static void call236()
{
  expect(169);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::string a2{};
  um2::gmsh::model::mesh::field::getString(a0, a1, a2);
  called();
  received(2, a2);
}
static void call237()
{
  expect(170);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  um2::gmsh::model::mesh::field::setNumbers(a0, a1, a2);
  called();
}
static void call238()
{
  expect(171);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<double> a2{};
  um2::gmsh::model::mesh::field::getNumbers(a0, a1, a2);
  called();
  received(2, a2);
}
static void call239()
{
  expect(172);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::model::mesh::field::setAsBackgroundMesh(a0);
  called();
}
static void call240()
{
  expect(173);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::model::mesh::field::setAsBoundaryLayer(a0);
  called();
}
static void call241()
{
  expect(174);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  auto const r = um2::gmsh::model::geo::addPoint(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call242()
{
  expect(174);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = 0.;
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  auto const r = um2::gmsh::model::geo::addPoint(a0, a1, a2);
  called();
  returned(r);
}
static void call243()
{
  expect(175);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addLine(a0, a1, a2);
  called();
  returned(r);
}
static void call244()
{
  expect(175);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addLine(a0, a1);
  called();
  returned(r);
}
static void call245()
{
  expect(176);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  auto const r = um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5, a6);
  called();
  returned(r);
}
static void call246()
{
  expect(176);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = -1;
  pass(3, a3);
  double const a4 = 0.;
  pass(4, a4);
  double const a5 = 0.;
  pass(5, a5);
  double const a6 = 0.;
  pass(6, a6);
  auto const r = um2::gmsh::model::geo::addCircleArc(a0, a1, a2);
  called();
  returned(r);
}
static void call247()
{
  expect(177);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  auto const r = um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  returned(r);
}
static void call248()
{
  expect(177);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  double const a5 = 0.;
  pass(5, a5);
  double const a6 = 0.;
  pass(6, a6);
  double const a7 = 0.;
  pass(7, a7);
  auto const r = um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call249()
{
  expect(178);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addBSpline(a0, a1);
  called();
  returned(r);
}
static void call250()
{
  expect(178);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addBSpline(a0);
  called();
  returned(r);
}
static void call251()
{
  expect(179);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addBezier(a0, a1);
  called();
  returned(r);
}
static void call252()
{
  expect(179);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addBezier(a0);
  called();
  returned(r);
}
static void call253()
{
  expect(180);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addPolyline(a0, a1);
  called();
  returned(r);
}
static void call254()
{
  expect(180);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addPolyline(a0);
  called();
  returned(r);
}
static void call255()
{
  expect(181);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addCompoundSpline(a0, a1, a2);
  called();
  returned(r);
}
static void call256()
{
  expect(181);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = 5;
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addCompoundSpline(a0);
  called();
  returned(r);
}
static void call257()
{
  expect(182);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addCompoundBSpline(a0, a1, a2);
  called();
  returned(r);
}
static void call258()
{
  expect(182);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = 20;
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addCompoundBSpline(a0);
  called();
  returned(r);
}
static void call259()
{
  expect(183);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addCurveLoop(a0, a1, a2);
  called();
  returned(r);
}
static void call260()
{
  expect(183);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addCurveLoop(a0);
  called();
  returned(r);
}
static void call261()
{
  expect(184);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  std::vector<int> a1{};
  um2::gmsh::model::geo::addCurveLoops(a0, a1);
  called();
  received(1, a1);
}
static void call262()
{
  expect(185);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addPlaneSurface(a0, a1);
  called();
  returned(r);
}
static void call263()
{
  expect(185);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::geo::addPlaneSurface(a0);
  called();
  returned(r);
}
static void call264()
{
  expect(186);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addSurfaceFilling(a0, a1, a2);
  called();
  returned(r);
}
static void call265()
{
  expect(186);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  auto const r = um2::gmsh::model::geo::addSurfaceFilling(a0);
  called();
  returned(r);
}
static void call266()
{
  expect(187);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  std::vector<std::pair<int, int>> a8{};
  std::vector<int> const a9 = make<std::vector<int>>();
  pass(9, a9);
  std::vector<double> const a10 = make<std::vector<double>>();
  pass(10, a10);
  bool const a11 = make<bool>();
  pass(11, a11);
  um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
  called();
  received(8, a8);
}
static void call267()
{
  expect(187);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  std::vector<std::pair<int, int>> a8{};
  std::vector<int> const a9 = std::vector<int>();
  pass(9, a9);
  std::vector<double> const a10 = std::vector<double>();
  pass(10, a10);
  bool const a11 = false;
  pass(11, a11);
  um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
  received(8, a8);
}
static void call268()
{
  expect(188);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  double const a8 = make<double>();
  pass(8, a8);
  double const a9 = make<double>();
  pass(9, a9);
  double const a10 = make<double>();
  pass(10, a10);
  std::vector<std::pair<int, int>> a11{};
  std::vector<int> const a12 = make<std::vector<int>>();
  pass(12, a12);
  std::vector<double> const a13 = make<std::vector<double>>();
  pass(13, a13);
  bool const a14 = make<bool>();
  pass(14, a14);
  um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14);
  called();
  received(11, a11);
}
static void call269()
{
  expect(188);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  double const a8 = make<double>();
  pass(8, a8);
  double const a9 = make<double>();
  pass(9, a9);
  double const a10 = make<double>();
  pass(10, a10);
  std::vector<std::pair<int, int>> a11{};
  std::vector<int> const a12 = std::vector<int>();
  pass(12, a12);
  std::vector<double> const a13 = std::vector<double>();
  pass(13, a13);
  bool const a14 = false;
  pass(14, a14);
  um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
  called();
  received(11, a11);
}
static void call270()
{
  expect(189);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  int const a6 = make<int>();
  pass(6, a6);
  um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(1, a1);
}
static void call271()
{
  expect(189);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  std::vector<int> const a2 = std::vector<int>(1, 1);
  pass(2, a2);
  std::vector<double> const a3 = std::vector<double>();
  pass(3, a3);
  bool const a4 = false;
  pass(4, a4);
  bool const a5 = false;
  pass(5, a5);
  int const a6 = -1;
  pass(6, a6);
  um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1);
  called();
  received(1, a1);
}
static void call272()
{
  expect(190);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  um2::gmsh::model::geo::translate(a0, a1, a2, a3);
  called();
}
static void call273()
{
  expect(191);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  um2::gmsh::model::geo::rotate(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
}
static void call274()
{
  expect(192);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  um2::gmsh::model::geo::dilate(a0, a1, a2, a3, a4, a5, a6);
  called();
}
static void call275()
{
  expect(193);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  um2::gmsh::model::geo::mirror(a0, a1, a2, a3, a4);
  called();
}
static void call276()
{
  expect(194);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  um2::gmsh::model::geo::symmetrize(a0, a1, a2, a3, a4);
  called();
}
static void call277()
{
  expect(195);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  um2::gmsh::model::geo::copy(a0, a1);
  called();
  received(1, a1);
}
static void call278()
{
  expect(196);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  um2::gmsh::model::geo::remove(a0, a1);
  called();
}
static void call279()
{
  expect(196);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  bool const a1 = false;
  pass(1, a1);
  um2::gmsh::model::geo::remove(a0);
  called();
}
static void call280()
{
  expect(197);
  um2::gmsh::model::geo::removeAllDuplicates();
  called();
}
static void call281()
{
  expect(198);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<int> a2{};
  um2::gmsh::model::geo::splitCurve(a0, a1, a2);
  called();
  received(2, a2);
}
static void call282()
{
  expect(199);
  int const a0 = make<int>();
  pass(0, a0);
  auto const r = um2::gmsh::model::geo::getMaxTag(a0);
  called();
  returned(r);
}
static void call283()
{
  expect(200);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::geo::setMaxTag(a0, a1);
  called();
}
static void call284()
{
  expect(201);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  auto const r = um2::gmsh::model::geo::addPhysicalGroup(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call285()
{
  expect(201);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  std::string const a3 = "";
  pass(3, a3);
  auto const r = um2::gmsh::model::geo::addPhysicalGroup(a0, a1);
  called();
  returned(r);
}
static void call286()
{
  expect(202);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::geo::removePhysicalGroups(a0);
  called();
}
static void call287()
{
  expect(202);
  std::vector<std::pair<int, int>> const a0 = gmsh::vectorpair();
  pass(0, a0);
  um2::gmsh::model::geo::removePhysicalGroups();
  called();
}
static void call288()
{
  expect(203);
  um2::gmsh::model::geo::synchronize();
  called();
}
static void call289()
{
  expect(204);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  um2::gmsh::model::geo::mesh::setSize(a0, a1);
  called();
}
static void call290()
{
  expect(205);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2, a3);
  called();
}
static void call291()
{
  expect(205);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = "Progression";
  pass(2, a2);
  double const a3 = 1.;
  pass(3, a3);
  um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1);
  called();
}
static void call292()
{
  expect(206);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1, a2);
  called();
}
static void call293()
{
  expect(206);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = "Left";
  pass(1, a1);
  std::vector<int> const a2 = std::vector<int>();
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0);
  called();
}
static void call294()
{
  expect(207);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0, a1);
  called();
}
static void call295()
{
  expect(207);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = std::vector<int>();
  pass(1, a1);
  um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0);
  called();
}
static void call296()
{
  expect(208);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setRecombine(a0, a1, a2);
  called();
}
static void call297()
{
  expect(208);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double const a2 = 45.;
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setRecombine(a0, a1);
  called();
}
static void call298()
{
  expect(209);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setSmoothing(a0, a1, a2);
  called();
}
static void call299()
{
  expect(210);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setReverse(a0, a1, a2);
  called();
}
static void call300()
{
  expect(210);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = true;
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setReverse(a0, a1);
  called();
}
static void call301()
{
  expect(211);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setAlgorithm(a0, a1, a2);
  called();
}
static void call302()
{
  expect(212);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::model::geo::mesh::setSizeFromBoundary(a0, a1, a2);
  called();
}
static void call303()
{
  expect(213);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addPoint(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call304()
{
  expect(213);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = 0.;
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addPoint(a0, a1, a2);
  called();
  returned(r);
}
static void call305()
{
  expect(214);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addLine(a0, a1, a2);
  called();
  returned(r);
}
static void call306()
{
  expect(214);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addLine(a0, a1);
  called();
  returned(r);
}
static void call307()
{
  expect(215);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  bool const a4 = true;
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addCircleArc(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call308()
{
  expect(215);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = -1;
  pass(3, a3);
  bool const a4 = true;
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addCircleArc(a0, a1, a2);
  called();
  returned(r);
}
static void call309()
{
  expect(216);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  std::vector<double> const a7 = make<std::vector<double>>();
  pass(7, a7);
  std::vector<double> const a8 = make<std::vector<double>>();
  pass(8, a8);
  auto const r = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
  returned(r);
}
static void call310()
{
  expect(216);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  double const a5 = 0.;
  pass(5, a5);
  double const a6 = 2*M_PI;
  pass(6, a6);
  std::vector<double> const a7 = std::vector<double>();
  pass(7, a7);
  std::vector<double> const a8 = std::vector<double>();
  pass(8, a8);
  auto const r = um2::gmsh::model::occ::addCircle(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call311()
{
  expect(217);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call312()
{
  expect(217);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call313()
{
  expect(218);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = make<int>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  std::vector<double> const a8 = make<std::vector<double>>();
  pass(8, a8);
  std::vector<double> const a9 = make<std::vector<double>>();
  pass(9, a9);
  auto const r = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
  called();
  returned(r);
}
static void call314()
{
  expect(218);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = -1;
  pass(5, a5);
  double const a6 = 0.;
  pass(6, a6);
  double const a7 = 2*M_PI;
  pass(7, a7);
  std::vector<double> const a8 = std::vector<double>();
  pass(8, a8);
  std::vector<double> const a9 = std::vector<double>();
  pass(9, a9);
  auto const r = um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call315()
{
  expect(219);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  std::vector<double> const a4 = make<std::vector<double>>();
  pass(4, a4);
  std::vector<int> const a5 = make<std::vector<int>>();
  pass(5, a5);
  auto const r = um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4, a5);
  called();
  returned(r);
}
static void call316()
{
  expect(219);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  int const a2 = 3;
  pass(2, a2);
  std::vector<double> const a3 = std::vector<double>();
  pass(3, a3);
  std::vector<double> const a4 = std::vector<double>();
  pass(4, a4);
  std::vector<int> const a5 = std::vector<int>();
  pass(5, a5);
  auto const r = um2::gmsh::model::occ::addBSpline(a0);
  called();
  returned(r);
}
static void call317()
{
  expect(220);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addBezier(a0, a1);
  called();
  returned(r);
}
static void call318()
{
  expect(220);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addBezier(a0);
  called();
  returned(r);
}
static void call319()
{
  expect(221);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addWire(a0, a1, a2);
  called();
  returned(r);
}
static void call320()
{
  expect(221);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addWire(a0);
  called();
  returned(r);
}
static void call321()
{
  expect(222);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addCurveLoop(a0, a1);
  called();
  returned(r);
}
static void call322()
{
  expect(222);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addCurveLoop(a0);
  called();
  returned(r);
}
static void call323()
{
  expect(223);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = make<int>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  auto const r = um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5, a6);
  called();
  returned(r);
}
static void call324()
{
  expect(223);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = -1;
  pass(5, a5);
  double const a6 = 0.;
  pass(6, a6);
  auto const r = um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call325()
{
  expect(224);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = make<int>();
  pass(5, a5);
  std::vector<double> const a6 = make<std::vector<double>>();
  pass(6, a6);
  std::vector<double> const a7 = make<std::vector<double>>();
  pass(7, a7);
  auto const r = um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  returned(r);
}
static void call326()
{
  expect(224);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = -1;
  pass(5, a5);
  std::vector<double> const a6 = std::vector<double>();
  pass(6, a6);
  std::vector<double> const a7 = std::vector<double>();
  pass(7, a7);
  auto const r = um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call327()
{
  expect(225);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addPlaneSurface(a0, a1);
  called();
  returned(r);
}
static void call328()
{
  expect(225);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addPlaneSurface(a0);
  called();
  returned(r);
}
static void call329()
{
  expect(226);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  int const a5 = make<int>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  double const a8 = make<double>();
  pass(8, a8);
  double const a9 = make<double>();
  pass(9, a9);
  double const a10 = make<double>();
  pass(10, a10);
  int const a11 = make<int>();
  pass(11, a11);
  int const a12 = make<int>();
  pass(12, a12);
  auto const r = um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12);
  called();
  returned(r);
}
static void call330()
{
  expect(226);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  std::vector<int> const a2 = std::vector<int>();
  pass(2, a2);
  int const a3 = 3;
  pass(3, a3);
  int const a4 = 15;
  pass(4, a4);
  int const a5 = 2;
  pass(5, a5);
  bool const a6 = false;
  pass(6, a6);
  double const a7 = 0.00001;
  pass(7, a7);
  double const a8 = 0.0001;
  pass(8, a8);
  double const a9 = 0.01;
  pass(9, a9);
  double const a10 = 0.1;
  pass(10, a10);
  int const a11 = 8;
  pass(11, a11);
  int const a12 = 9;
  pass(12, a12);
  auto const r = um2::gmsh::model::occ::addSurfaceFilling(a0);
  called();
  returned(r);
}
static void call331()
{
  expect(227);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addBSplineFilling(a0, a1, a2);
  called();
  returned(r);
}
static void call332()
{
  expect(227);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  std::string const a2 = "";
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addBSplineFilling(a0);
  called();
  returned(r);
}
static void call333()
{
  expect(228);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addBezierFilling(a0, a1, a2);
  called();
  returned(r);
}
static void call334()
{
  expect(228);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  std::string const a2 = "";
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addBezierFilling(a0);
  called();
  returned(r);
}
static void call335()
{
  expect(229);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  std::vector<double> const a5 = make<std::vector<double>>();
  pass(5, a5);
  std::vector<double> const a6 = make<std::vector<double>>();
  pass(6, a6);
  std::vector<double> const a7 = make<std::vector<double>>();
  pass(7, a7);
  std::vector<int> const a8 = make<std::vector<int>>();
  pass(8, a8);
  std::vector<int> const a9 = make<std::vector<int>>();
  pass(9, a9);
  std::vector<int> const a10 = make<std::vector<int>>();
  pass(10, a10);
  bool const a11 = make<bool>();
  pass(11, a11);
  auto const r = um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
  called();
  returned(r);
}
static void call336()
{
  expect(229);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  int const a3 = 3;
  pass(3, a3);
  int const a4 = 3;
  pass(4, a4);
  std::vector<double> const a5 = std::vector<double>();
  pass(5, a5);
  std::vector<double> const a6 = std::vector<double>();
  pass(6, a6);
  std::vector<double> const a7 = std::vector<double>();
  pass(7, a7);
  std::vector<int> const a8 = std::vector<int>();
  pass(8, a8);
  std::vector<int> const a9 = std::vector<int>();
  pass(9, a9);
  std::vector<int> const a10 = std::vector<int>();
  pass(10, a10);
  bool const a11 = false;
  pass(11, a11);
  auto const r = um2::gmsh::model::occ::addBSplineSurface(a0, a1);
  called();
  returned(r);
}
static void call337()
{
  expect(230);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::vector<int> const a3 = make<std::vector<int>>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call338()
{
  expect(230);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  std::vector<int> const a3 = std::vector<int>();
  pass(3, a3);
  bool const a4 = false;
  pass(4, a4);
  auto const r = um2::gmsh::model::occ::addBezierSurface(a0, a1);
  called();
  returned(r);
}
static void call339()
{
  expect(231);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  auto const r = um2::gmsh::model::occ::addTrimmedSurface(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call340()
{
  expect(231);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = std::vector<int>();
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  int const a3 = -1;
  pass(3, a3);
  auto const r = um2::gmsh::model::occ::addTrimmedSurface(a0);
  called();
  returned(r);
}
static void call341()
{
  expect(232);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addSurfaceLoop(a0, a1, a2);
  called();
  returned(r);
}
static void call342()
{
  expect(232);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  auto const r = um2::gmsh::model::occ::addSurfaceLoop(a0);
  called();
  returned(r);
}
static void call343()
{
  expect(233);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addVolume(a0, a1);
  called();
  returned(r);
}
static void call344()
{
  expect(233);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::model::occ::addVolume(a0);
  called();
  returned(r);
}
static void call345()
{
  expect(234);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  auto const r = um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  returned(r);
}
static void call346()
{
  expect(234);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  int const a4 = -1;
  pass(4, a4);
  double const a5 = -M_PI/2;
  pass(5, a5);
  double const a6 = M_PI/2;
  pass(6, a6);
  double const a7 = 2*M_PI;
  pass(7, a7);
  auto const r = um2::gmsh::model::occ::addSphere(a0, a1, a2, a3);
  called();
  returned(r);
}
static void call347()
{
  expect(235);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  int const a6 = make<int>();
  pass(6, a6);
  auto const r = um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5, a6);
  called();
  returned(r);
}
static void call348()
{
  expect(235);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  int const a6 = -1;
  pass(6, a6);
  auto const r = um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5);
  called();
  returned(r);
}
static void call349()
{
  expect(236);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  int const a7 = make<int>();
  pass(7, a7);
  double const a8 = make<double>();
  pass(8, a8);
  auto const r = um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
  returned(r);
}
static void call350()
{
  expect(236);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  int const a7 = -1;
  pass(7, a7);
  double const a8 = 2*M_PI;
  pass(8, a8);
  auto const r = um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6);
  called();
  returned(r);
}
static void call351()
{
  expect(237);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  int const a8 = make<int>();
  pass(8, a8);
  double const a9 = make<double>();
  pass(9, a9);
  auto const r = um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
  called();
  returned(r);
}
static void call352()
{
  expect(237);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  int const a8 = -1;
  pass(8, a8);
  double const a9 = 2*M_PI;
  pass(9, a9);
  auto const r = um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  returned(r);
}
static void call353()
{
  expect(238);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  int const a6 = make<int>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  std::vector<double> const a8 = make<std::vector<double>>();
  pass(8, a8);
  auto const r = um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
  returned(r);
}
static void call354()
{
  expect(238);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  int const a6 = -1;
  pass(6, a6);
  double const a7 = 0.;
  pass(7, a7);
  std::vector<double> const a8 = std::vector<double>();
  pass(8, a8);
  auto const r = um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5);
  called();
  returned(r);
}
static void call355()
{
  expect(239);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = make<int>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  std::vector<double> const a7 = make<std::vector<double>>();
  pass(7, a7);
  auto const r = um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  returned(r);
}
static void call356()
{
  expect(239);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  int const a5 = -1;
  pass(5, a5);
  double const a6 = 2*M_PI;
  pass(6, a6);
  std::vector<double> const a7 = std::vector<double>();
  pass(7, a7);
  auto const r = um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4);
  called();
  returned(r);
}
static void call357()
{
  expect(240);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  std::vector<std::pair<int, int>> a3{};
  int const a4 = make<int>();
  pass(4, a4);
  um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3, a4);
  called();
  received(3, a3);
}
static void call358()
{
  expect(240);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  std::vector<std::pair<int, int>> a3{};
  int const a4 = -1;
  pass(4, a4);
  um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call359()
{
  expect(241);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  std::vector<std::pair<int, int>> a4{};
  std::vector<int> const a5 = make<std::vector<int>>();
  pass(5, a5);
  std::vector<double> const a6 = make<std::vector<double>>();
  pass(6, a6);
  bool const a7 = make<bool>();
  pass(7, a7);
  um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(4, a4);
}
static void call360()
{
  expect(241);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  std::vector<std::pair<int, int>> a4{};
  std::vector<int> const a5 = std::vector<int>();
  pass(5, a5);
  std::vector<double> const a6 = std::vector<double>();
  pass(6, a6);
  bool const a7 = false;
  pass(7, a7);
  um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4);
  called();
  received(4, a4);
}
static void call361()
{
  expect(242);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  std::vector<std::pair<int, int>> a8{};
  std::vector<int> const a9 = make<std::vector<int>>();
  pass(9, a9);
  std::vector<double> const a10 = make<std::vector<double>>();
  pass(10, a10);
  bool const a11 = make<bool>();
  pass(11, a11);
  um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11);
  called();
  received(8, a8);
}
static void call362()
{
  expect(242);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  std::vector<std::pair<int, int>> a8{};
  std::vector<int> const a9 = std::vector<int>();
  pass(9, a9);
  std::vector<double> const a10 = std::vector<double>();
  pass(10, a10);
  bool const a11 = false;
  pass(11, a11);
  um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
  received(8, a8);
}
static void call363()
{
  expect(243);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::string const a3 = make<std::string>();
  pass(3, a3);
  um2::gmsh::model::occ::addPipe(a0, a1, a2, a3);
  called();
  received(2, a2);
}
static void call364()
{
  expect(243);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::string const a3 = "";
  pass(3, a3);
  um2::gmsh::model::occ::addPipe(a0, a1, a2);
  called();
  received(2, a2);
}
static void call365()
{
  expect(244);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<std::pair<int, int>> a3{};
  bool const a4 = make<bool>();
  pass(4, a4);
  um2::gmsh::model::occ::fillet(a0, a1, a2, a3, a4);
  called();
  received(3, a3);
}
static void call366()
{
  expect(244);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<double> const a2 = make<std::vector<double>>();
  pass(2, a2);
  std::vector<std::pair<int, int>> a3{};
  bool const a4 = true;
  pass(4, a4);
  um2::gmsh::model::occ::fillet(a0, a1, a2, a3);
  called();
  received(3, a3);
}
static void call367()
{
  expect(245);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  std::vector<std::pair<int, int>> a4{};
  bool const a5 = make<bool>();
  pass(5, a5);
  um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4, a5);
  called();
  received(4, a4);
}
static void call368()
{
  expect(245);
  std::vector<int> const a0 = make<std::vector<int>>();
  pass(0, a0);
  std::vector<int> const a1 = make<std::vector<int>>();
  pass(1, a1);
  std::vector<int> const a2 = make<std::vector<int>>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  std::vector<std::pair<int, int>> a4{};
  bool const a5 = true;
  pass(5, a5);
  um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4);
  called();
  received(4, a4);
}
static void call369()
{
  expect(246);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
}
static void call370()
{
  expect(246);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = -1;
  pass(4, a4);
  bool const a5 = true;
  pass(5, a5);
  bool const a6 = true;
  pass(6, a6);
  um2::gmsh::model::occ::fuse(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call371()
{
  expect(247);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
}
static void call372()
{
  expect(247);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = -1;
  pass(4, a4);
  bool const a5 = true;
  pass(5, a5);
  bool const a6 = true;
  pass(6, a6);
  um2::gmsh::model::occ::intersect(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call373()
{
  expect(248);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
}
static void call374()
{
  expect(248);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = -1;
  pass(4, a4);
  bool const a5 = true;
  pass(5, a5);
  bool const a6 = true;
  pass(6, a6);
  um2::gmsh::model::occ::cut(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call375()
{
  expect(249);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = make<int>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
}
static void call376()
{
  expect(249);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  std::vector<std::pair<int, int>> a2{};
  std::vector<std::vector<std::pair<int, int>>> a3{};
  int const a4 = -1;
  pass(4, a4);
  bool const a5 = true;
  pass(5, a5);
  bool const a6 = true;
  pass(6, a6);
  um2::gmsh::model::occ::fragment(a0, a1, a2, a3);
  called();
  received(2, a2);
  received(3, a3);
}
static void call377()
{
  expect(250);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  um2::gmsh::model::occ::translate(a0, a1, a2, a3);
  called();
}
static void call378()
{
  expect(251);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  double const a7 = make<double>();
  pass(7, a7);
  um2::gmsh::model::occ::rotate(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
}
static void call379()
{
  expect(252);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  um2::gmsh::model::occ::dilate(a0, a1, a2, a3, a4, a5, a6);
  called();
}
static void call380()
{
  expect(253);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  um2::gmsh::model::occ::mirror(a0, a1, a2, a3, a4);
  called();
}
static void call381()
{
  expect(254);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  um2::gmsh::model::occ::symmetrize(a0, a1, a2, a3, a4);
  called();
}
static void call382()
{
  expect(255);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  um2::gmsh::model::occ::affineTransform(a0, a1);
  called();
}
static void call383()
{
  expect(256);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  um2::gmsh::model::occ::copy(a0, a1);
  called();
  received(1, a1);
}
static void call384()
{
  expect(257);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  um2::gmsh::model::occ::remove(a0, a1);
  called();
}
static void call385()
{
  expect(257);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  bool const a1 = false;
  pass(1, a1);
  um2::gmsh::model::occ::remove(a0);
  called();
}
static void call386()
{
  expect(258);
  um2::gmsh::model::occ::removeAllDuplicates();
  called();
}
static void call387()
{
  expect(259);
  std::vector<std::pair<int, int>> a0{};
  std::vector<std::pair<int, int>> const a1 = make<std::vector<std::pair<int, int>>>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  bool const a4 = make<bool>();
  pass(4, a4);
  bool const a5 = make<bool>();
  pass(5, a5);
  bool const a6 = make<bool>();
  pass(6, a6);
  bool const a7 = make<bool>();
  pass(7, a7);
  um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(0, a0);
}
static void call388()
{
  expect(259);
  std::vector<std::pair<int, int>> a0{};
  std::vector<std::pair<int, int>> const a1 = gmsh::vectorpair();
  pass(1, a1);
  double const a2 = 1e-8;
  pass(2, a2);
  bool const a3 = true;
  pass(3, a3);
  bool const a4 = true;
  pass(4, a4);
  bool const a5 = true;
  pass(5, a5);
  bool const a6 = true;
  pass(6, a6);
  bool const a7 = true;
  pass(7, a7);
  um2::gmsh::model::occ::healShapes(a0);
  called();
  received(0, a0);
}
static void call389()
{
  expect(260);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  um2::gmsh::model::occ::convertToNURBS(a0);
  called();
}
static void call390()
{
  expect(261);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  bool const a2 = make<bool>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  um2::gmsh::model::occ::importShapes(a0, a1, a2, a3);
  called();
  received(1, a1);
}
static void call391()
{
  expect(261);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<std::pair<int, int>> a1{};
  bool const a2 = true;
  pass(2, a2);
  std::string const a3 = "";
  pass(3, a3);
  um2::gmsh::model::occ::importShapes(a0, a1);
  called();
  received(1, a1);
}
static void call392()
{
  expect(262);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::occ::getEntities(a0, a1);
  called();
  received(0, a0);
}
static void call393()
{
  expect(262);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = -1;
  pass(1, a1);
  um2::gmsh::model::occ::getEntities(a0);
  called();
  received(0, a0);
}
static void call394()
{
  expect(263);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  std::vector<std::pair<int, int>> a6{};
  int const a7 = make<int>();
  pass(7, a7);
  um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(6, a6);
}
static void call395()
{
  expect(263);
  double const a0 = make<double>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  double const a4 = make<double>();
  pass(4, a4);
  double const a5 = make<double>();
  pass(5, a5);
  std::vector<std::pair<int, int>> a6{};
  int const a7 = -1;
  pass(7, a7);
  um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(6, a6);
}
static void call396()
{
  expect(264);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double a2{};
  double a3{};
  double a4{};
  double a5{};
  double a6{};
  double a7{};
  um2::gmsh::model::occ::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
  received(7, a7);
}
static void call397()
{
  expect(265);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> a1{};
  std::vector<std::vector<int> > a2{};
  um2::gmsh::model::occ::getCurveLoops(a0, a1, a2);
  called();
  received(1, a1);
  received(2, a2);
}
static void call398()
{
  expect(266);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<int> a1{};
  std::vector<std::vector<int> > a2{};
  um2::gmsh::model::occ::getSurfaceLoops(a0, a1, a2);
  called();
  received(1, a1);
  received(2, a2);
}
static void call399()
{
  expect(267);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double a2{};
  um2::gmsh::model::occ::getMass(a0, a1, a2);
  called();
  received(2, a2);
}
static void call400()
{
  expect(268);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  double a2{};
  double a3{};
  double a4{};
  um2::gmsh::model::occ::getCenterOfMass(a0, a1, a2, a3, a4);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call401()
{
  expect(269);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> a2{};
  um2::gmsh::model::occ::getMatrixOfInertia(a0, a1, a2);
  called();
  received(2, a2);
}
static void call402()
{
  expect(270);
  int const a0 = make<int>();
  pass(0, a0);
  auto const r = um2::gmsh::model::occ::getMaxTag(a0);
  called();
  returned(r);
}
static void call403()
{
  expect(271);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::model::occ::setMaxTag(a0, a1);
  called();
}
static void call404()
{
  expect(272);
  um2::gmsh::model::occ::synchronize();
  called();
}
static void call405()
{
  expect(273);
  std::vector<std::pair<int, int>> const a0 = make<std::vector<std::pair<int, int>>>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  um2::gmsh::model::occ::mesh::setSize(a0, a1);
  called();
}
static void call406()
{
  expect(274);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::view::add(a0, a1);
  called();
  returned(r);
}
static void call407()
{
  expect(274);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::view::add(a0);
  called();
  returned(r);
}
static void call408()
{
  expect(275);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::view::remove(a0);
  called();
}
static void call409()
{
  expect(276);
  int const a0 = make<int>();
  pass(0, a0);
  auto const r = um2::gmsh::view::getIndex(a0);
  called();
  returned(r);
}
static void call410()
{
  expect(277);
  std::vector<int> a0{};
  um2::gmsh::view::getTags(a0);
  called();
  received(0, a0);
}
static void call411()
{
  expect(278);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  std::vector<std::size_t> const a4 = make<std::vector<std::size_t>>();
  pass(4, a4);
  std::vector<std::vector<double> > const a5 = make<std::vector<std::vector<double> >>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  int const a7 = make<int>();
  pass(7, a7);
  int const a8 = make<int>();
  pass(8, a8);
  um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
}
static void call412()
{
  expect(278);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  std::vector<std::size_t> const a4 = make<std::vector<std::size_t>>();
  pass(4, a4);
  std::vector<std::vector<double> > const a5 = make<std::vector<std::vector<double> >>();
  pass(5, a5);
  double const a6 = 0.;
  pass(6, a6);
  int const a7 = -1;
  pass(7, a7);
  int const a8 = 0;
  pass(8, a8);
  um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5);
  called();
}
static void call413()
{
  expect(279);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  std::vector<std::size_t> const a4 = make<std::vector<std::size_t>>();
  pass(4, a4);
  std::vector<double> const a5 = make<std::vector<double>>();
  pass(5, a5);
  double const a6 = make<double>();
  pass(6, a6);
  int const a7 = make<int>();
  pass(7, a7);
  int const a8 = make<int>();
  pass(8, a8);
  um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8);
  called();
}
static void call414()
{
  expect(279);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  std::string const a3 = make<std::string>();
  pass(3, a3);
  std::vector<std::size_t> const a4 = make<std::vector<std::size_t>>();
  pass(4, a4);
  std::vector<double> const a5 = make<std::vector<double>>();
  pass(5, a5);
  double const a6 = 0.;
  pass(6, a6);
  int const a7 = -1;
  pass(7, a7);
  int const a8 = 0;
  pass(8, a8);
  um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5);
  called();
}
static void call415()
{
  expect(280);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string a2{};
  std::vector<std::size_t> a3{};
  std::vector<std::vector<double> > a4{};
  double a5{};
  int a6{};
  um2::gmsh::view::getModelData(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
}
static void call416()
{
  expect(281);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::string a2{};
  std::vector<std::size_t> a3{};
  std::vector<double> a4{};
  double a5{};
  int a6{};
  um2::gmsh::view::getHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
  received(6, a6);
}
static void call417()
{
  expect(282);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  um2::gmsh::view::addListData(a0, a1, a2, a3);
  called();
}
static void call418()
{
  expect(283);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::string> a1{};
  std::vector<int> a2{};
  std::vector<std::vector<double> > a3{};
  bool const a4 = false;
  pass(4, a4);
  um2::gmsh::view::getListData(a0, a1, a2, a3);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
}
static void call419()
{
  expect(283);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<std::string> a1{};
  std::vector<int> a2{};
  std::vector<std::vector<double> > a3{};
  bool const a4 = false;
  pass(4, a4);
  um2::gmsh::view::getListData(a0, a1, a2, a3);
  called();
  received(1, a1);
  received(2, a2);
  received(3, a3);
}
static void call420()
{
  expect(284);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<std::string> const a2 = make<std::vector<std::string>>();
  pass(2, a2);
  std::vector<std::string> const a3 = make<std::vector<std::string>>();
  pass(3, a3);
  um2::gmsh::view::addListDataString(a0, a1, a2, a3);
  called();
}
static void call421()
{
  expect(284);
  int const a0 = make<int>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  std::vector<std::string> const a2 = make<std::vector<std::string>>();
  pass(2, a2);
  std::vector<std::string> const a3 = std::vector<std::string>();
  pass(3, a3);
  um2::gmsh::view::addListDataString(a0, a1, a2);
  called();
}
static void call422()
{
  expect(285);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  std::vector<double> a2{};
  std::vector<std::string> a3{};
  std::vector<std::string> a4{};
  um2::gmsh::view::getListDataStrings(a0, a1, a2, a3, a4);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
}
static void call423()
{
  expect(286);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  std::vector<double> const a4 = make<std::vector<double>>();
  pass(4, a4);
  int const a5 = make<int>();
  pass(5, a5);
  std::vector<double> const a6 = make<std::vector<double>>();
  pass(6, a6);
  std::vector<double> const a7 = make<std::vector<double>>();
  pass(7, a7);
  um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6, a7);
  called();
}
static void call424()
{
  expect(286);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  std::vector<double> const a3 = make<std::vector<double>>();
  pass(3, a3);
  std::vector<double> const a4 = make<std::vector<double>>();
  pass(4, a4);
  int const a5 = 0;
  pass(5, a5);
  std::vector<double> const a6 = std::vector<double>();
  pass(6, a6);
  std::vector<double> const a7 = std::vector<double>();
  pass(7, a7);
  um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4);
  called();
}
static void call425()
{
  expect(287);
  int const a0 = make<int>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  auto const r = um2::gmsh::view::addAlias(a0, a1, a2);
  called();
  returned(r);
}
static void call426()
{
  expect(287);
  int const a0 = make<int>();
  pass(0, a0);
  bool const a1 = false;
  pass(1, a1);
  int const a2 = -1;
  pass(2, a2);
  auto const r = um2::gmsh::view::addAlias(a0);
  called();
  returned(r);
}
static void call427()
{
  expect(288);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  bool const a3 = make<bool>();
  pass(3, a3);
  um2::gmsh::view::combine(a0, a1, a2, a3);
  called();
}
static void call428()
{
  expect(288);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  bool const a2 = true;
  pass(2, a2);
  bool const a3 = true;
  pass(3, a3);
  um2::gmsh::view::combine(a0, a1);
  called();
}
static void call429()
{
  expect(289);
  int const a0 = make<int>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  std::vector<double> a4{};
  double a5{};
  int const a6 = make<int>();
  pass(6, a6);
  int const a7 = make<int>();
  pass(7, a7);
  bool const a8 = make<bool>();
  pass(8, a8);
  double const a9 = make<double>();
  pass(9, a9);
  std::vector<double> const a10 = make<std::vector<double>>();
  pass(10, a10);
  std::vector<double> const a11 = make<std::vector<double>>();
  pass(11, a11);
  std::vector<double> const a12 = make<std::vector<double>>();
  pass(12, a12);
  int const a13 = make<int>();
  pass(13, a13);
  um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13);
  called();
  received(4, a4);
  received(5, a5);
}
static void call430()
{
  expect(289);
  int const a0 = make<int>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  double const a3 = make<double>();
  pass(3, a3);
  std::vector<double> a4{};
  double a5{};
  int const a6 = -1;
  pass(6, a6);
  int const a7 = -1;
  pass(7, a7);
  bool const a8 = false;
  pass(8, a8);
  double const a9 = 0.;
  pass(9, a9);
  std::vector<double> const a10 = std::vector<double>();
  pass(10, a10);
  std::vector<double> const a11 = std::vector<double>();
  pass(11, a11);
  std::vector<double> const a12 = std::vector<double>();
  pass(12, a12);
  int const a13 = -1;
  pass(13, a13);
  um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5);
  called();
  received(4, a4);
  received(5, a5);
}
static void call431()
{
  expect(290);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  bool const a2 = make<bool>();
  pass(2, a2);
  um2::gmsh::view::write(a0, a1, a2);
  called();
}
static void call432()
{
  expect(290);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  bool const a2 = false;
  pass(2, a2);
  um2::gmsh::view::write(a0, a1);
  called();
}
static void call433()
{
  expect(291);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  um2::gmsh::view::setVisibilityPerWindow(a0, a1, a2);
  called();
}
static void call434()
{
  expect(291);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  int const a2 = 0;
  pass(2, a2);
  um2::gmsh::view::setVisibilityPerWindow(a0, a1);
  called();
}
static void call435()
{
  expect(292);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  um2::gmsh::view::option::setNumber(a0, a1, a2);
  called();
}
static void call436()
{
  expect(293);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  double a2{};
  um2::gmsh::view::option::getNumber(a0, a1, a2);
  called();
  received(2, a2);
}
static void call437()
{
  expect(294);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  um2::gmsh::view::option::setString(a0, a1, a2);
  called();
}
static void call438()
{
  expect(295);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::string a2{};
  um2::gmsh::view::option::getString(a0, a1, a2);
  called();
  received(2, a2);
}
static void call439()
{
  expect(296);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  int const a5 = make<int>();
  pass(5, a5);
  um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4, a5);
  called();
}
static void call440()
{
  expect(296);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int const a2 = make<int>();
  pass(2, a2);
  int const a3 = make<int>();
  pass(3, a3);
  int const a4 = make<int>();
  pass(4, a4);
  int const a5 = 255;
  pass(5, a5);
  um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4);
  called();
}
static void call441()
{
  expect(297);
  int const a0 = make<int>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  int a2{};
  int a3{};
  int a4{};
  int a5{};
  um2::gmsh::view::option::getColor(a0, a1, a2, a3, a4, a5);
  called();
  received(2, a2);
  received(3, a3);
  received(4, a4);
  received(5, a5);
}
static void call442()
{
  expect(298);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::view::option::copy(a0, a1);
  called();
}
static void call443()
{
  expect(299);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  double const a2 = make<double>();
  pass(2, a2);
  um2::gmsh::plugin::setNumber(a0, a1, a2);
  called();
}
static void call444()
{
  expect(300);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  um2::gmsh::plugin::setString(a0, a1, a2);
  called();
}
static void call445()
{
  expect(301);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  auto const r = um2::gmsh::plugin::run(a0);
  called();
  returned(r);
}
static void call446()
{
  expect(302);
  um2::gmsh::graphics::draw();
  called();
}
static void call447()
{
  expect(303);
  um2::gmsh::fltk::initialize();
  called();
}
static void call448()
{
  expect(304);
  um2::gmsh::fltk::finalize();
  called();
}
static void call449()
{
  expect(305);
  double const a0 = make<double>();
  pass(0, a0);
  um2::gmsh::fltk::wait(a0);
  called();
}
static void call450()
{
  expect(305);
  double const a0 = -1.;
  pass(0, a0);
  um2::gmsh::fltk::wait();
  called();
}
static void call451()
{
  expect(306);
  um2::gmsh::fltk::update();
  called();
}
static void call452()
{
  expect(307);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::fltk::awake(a0);
  called();
}
static void call453()
{
  expect(307);
  std::string const a0 = "";
  pass(0, a0);
  um2::gmsh::fltk::awake();
  called();
}
static void call454()
{
  expect(308);
  um2::gmsh::fltk::lock();
  called();
}
static void call455()
{
  expect(309);
  um2::gmsh::fltk::unlock();
  called();
}
static void call456()
{
  expect(310);
  um2::gmsh::fltk::run();
  called();
}
static void call457()
{
  expect(311);
  auto const r = um2::gmsh::fltk::isAvailable();
  called();
  returned(r);
}
static void call458()
{
  expect(312);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = make<int>();
  pass(1, a1);
  auto const r = um2::gmsh::fltk::selectEntities(a0, a1);
  called();
  returned(r);
  received(0, a0);
}
static void call459()
{
  expect(312);
  std::vector<std::pair<int, int>> a0{};
  int const a1 = -1;
  pass(1, a1);
  auto const r = um2::gmsh::fltk::selectEntities(a0);
  called();
  returned(r);
  received(0, a0);
}
static void call460()
{
  expect(313);
  std::vector<std::size_t> a0{};
  auto const r = um2::gmsh::fltk::selectElements(a0);
  called();
  returned(r);
  received(0, a0);
}
static void call461()
{
  expect(314);
  std::vector<int> a0{};
  auto const r = um2::gmsh::fltk::selectViews(a0);
  called();
  returned(r);
  received(0, a0);
}
static void call462()
{
  expect(315);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  double const a1 = make<double>();
  pass(1, a1);
  um2::gmsh::fltk::splitCurrentWindow(a0, a1);
  called();
}
static void call463()
{
  expect(315);
  std::string const a0 = "v";
  pass(0, a0);
  double const a1 = 0.5;
  pass(1, a1);
  um2::gmsh::fltk::splitCurrentWindow();
  called();
}
static void call464()
{
  expect(316);
  int const a0 = make<int>();
  pass(0, a0);
  um2::gmsh::fltk::setCurrentWindow(a0);
  called();
}
static void call465()
{
  expect(316);
  int const a0 = 0;
  pass(0, a0);
  um2::gmsh::fltk::setCurrentWindow();
  called();
}
static void call466()
{
  expect(317);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  bool const a1 = make<bool>();
  pass(1, a1);
  um2::gmsh::fltk::setStatusMessage(a0, a1);
  called();
}
static void call467()
{
  expect(317);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  bool const a1 = false;
  pass(1, a1);
  um2::gmsh::fltk::setStatusMessage(a0);
  called();
}
static void call468()
{
  expect(318);
  int const a0 = make<int>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::fltk::showContextWindow(a0, a1);
  called();
}
static void call469()
{
  expect(319);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::fltk::openTreeItem(a0);
  called();
}
static void call470()
{
  expect(320);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::fltk::closeTreeItem(a0);
  called();
}
static void call471()
{
  expect(321);
  std::vector<std::string> a0{};
  std::string const a1 = make<std::string>();
  pass(1, a1);
  um2::gmsh::parser::getNames(a0, a1);
  called();
  received(0, a0);
}
static void call472()
{
  expect(321);
  std::vector<std::string> a0{};
  std::string const a1 = "";
  pass(1, a1);
  um2::gmsh::parser::getNames(a0);
  called();
  received(0, a0);
}
static void call473()
{
  expect(322);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  um2::gmsh::parser::setNumber(a0, a1);
  called();
}
static void call474()
{
  expect(323);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<std::string> const a1 = make<std::vector<std::string>>();
  pass(1, a1);
  um2::gmsh::parser::setString(a0, a1);
  called();
}
static void call475()
{
  expect(324);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<double> a1{};
  um2::gmsh::parser::getNumber(a0, a1);
  called();
  received(1, a1);
}
static void call476()
{
  expect(325);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<std::string> a1{};
  um2::gmsh::parser::getString(a0, a1);
  called();
  received(1, a1);
}
static void call477()
{
  expect(326);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::parser::clear(a0);
  called();
}
static void call478()
{
  expect(326);
  std::string const a0 = "";
  pass(0, a0);
  um2::gmsh::parser::clear();
  called();
}
static void call479()
{
  expect(327);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::parser::parse(a0);
  called();
}
static void call480()
{
  expect(328);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  um2::gmsh::onelab::set(a0, a1);
  called();
}
static void call481()
{
  expect(328);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = "json";
  pass(1, a1);
  um2::gmsh::onelab::set(a0);
  called();
}
static void call482()
{
  expect(329);
  std::string a0{};
  std::string const a1 = make<std::string>();
  pass(1, a1);
  std::string const a2 = make<std::string>();
  pass(2, a2);
  um2::gmsh::onelab::get(a0, a1, a2);
  called();
  received(0, a0);
}
static void call483()
{
  expect(329);
  std::string a0{};
  std::string const a1 = "";
  pass(1, a1);
  std::string const a2 = "json";
  pass(2, a2);
  um2::gmsh::onelab::get(a0);
  called();
  received(0, a0);
}
static void call484()
{
  expect(330);
  std::vector<std::string> a0{};
  std::string const a1 = make<std::string>();
  pass(1, a1);
  um2::gmsh::onelab::getNames(a0, a1);
  called();
  received(0, a0);
}
static void call485()
{
  expect(330);
  std::vector<std::string> a0{};
  std::string const a1 = "";
  pass(1, a1);
  um2::gmsh::onelab::getNames(a0);
  called();
  received(0, a0);
}
static void call486()
{
  expect(331);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<double> const a1 = make<std::vector<double>>();
  pass(1, a1);
  um2::gmsh::onelab::setNumber(a0, a1);
  called();
}
static void call487()
{
  expect(332);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<std::string> const a1 = make<std::vector<std::string>>();
  pass(1, a1);
  um2::gmsh::onelab::setString(a0, a1);
  called();
}
static void call488()
{
  expect(333);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<double> a1{};
  um2::gmsh::onelab::getNumber(a0, a1);
  called();
  received(1, a1);
}
static void call489()
{
  expect(334);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::vector<std::string> a1{};
  um2::gmsh::onelab::getString(a0, a1);
  called();
  received(1, a1);
}
static void call490()
{
  expect(335);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  auto const r = um2::gmsh::onelab::getChanged(a0);
  called();
  returned(r);
}
static void call491()
{
  expect(336);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  int const a1 = make<int>();
  pass(1, a1);
  um2::gmsh::onelab::setChanged(a0, a1);
  called();
}
static void call492()
{
  expect(337);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  um2::gmsh::onelab::clear(a0);
  called();
}
static void call493()
{
  expect(337);
  std::string const a0 = "";
  pass(0, a0);
  um2::gmsh::onelab::clear();
  called();
}
static void call494()
{
  expect(338);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  um2::gmsh::onelab::run(a0, a1);
  called();
}
static void call495()
{
  expect(338);
  std::string const a0 = "";
  pass(0, a0);
  std::string const a1 = "";
  pass(1, a1);
  um2::gmsh::onelab::run();
  called();
}
static void call496()
{
  expect(339);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = make<std::string>();
  pass(1, a1);
  um2::gmsh::logger::write(a0, a1);
  called();
}
static void call497()
{
  expect(339);
  std::string const a0 = make<std::string>();
  pass(0, a0);
  std::string const a1 = "info";
  pass(1, a1);
  um2::gmsh::logger::write(a0);
  called();
}
static void call498()
{
  expect(340);
  um2::gmsh::logger::start();
  called();
}
static void call499()
{
  expect(341);
  std::vector<std::string> a0{};
  um2::gmsh::logger::get(a0);
  called();
  received(0, a0);
}
static void call500()
{
  expect(342);
  um2::gmsh::logger::stop();
  called();
}
static void call501()
{
  expect(343);
  auto const r = um2::gmsh::logger::getWallTime();
  called();
  returned(r);
}
static void call502()
{
  expect(344);
  auto const r = um2::gmsh::logger::getCpuTime();
  called();
  returned(r);
}
static void call503()
{
  expect(345);
  std::string a0{};
  um2::gmsh::logger::getLastError(a0);
  called();
  received(0, a0);
}
using Call = void (*)();
static Call const table[504] = {call0, call1, call2, call3, call4, call5, call6, call7, call8, call9, call10, call11, call12, call13, call14, call15, call16, call17, call18, call19, call20, call21, call22, call23, call24, call25, call26, call27, call28, call29, call30, call31, call32, call33, call34, call35, call36, call37, call38, call39, call40, call41, call42, call43, call44, call45, call46, call47, call48, call49, call50, call51, call52, call53, call54, call55, call56, call57, call58, call59, call60, call61, call62, call63, call64, call65, call66, call67, call68, call69, call70, call71, call72, call73, call74, call75, call76, call77, call78, call79, call80, call81, call82, call83, call84, call85, call86, call87, call88, call89, call90, call91, call92, call93, call94, call95, call96, call97, call98, call99, call100, call101, call102, call103, call104, call105, call106, call107, call108, call109, call110, call111, call112, call113, call114, call115, call116, call117, call118, call119, call120, call121, call122, call123, call124, call125, call126, call127, call128, call129, call130, call131, call132, call133, call134, call135, call136, call137, call138, call139, call140, call141, call142, call143, call144, call145, call146, call147, call148, call149, call150, call151, call152, call153, call154, call155, call156, call157, call158, call159, call160, call161, call162, call163, call164, call165, call166, call167, call168, call169, call170, call171, call172, call173, call174, call175, call176, call177, call178, call179, call180, call181, call182, call183, call184, call185, call186, call187, call188, call189, call190, call191, call192, call193, call194, call195, call196, call197, call198, call199, call200, call201, call202, call203, call204, call205, call206, call207, call208, call209, call210, call211, call212, call213, call214, call215, call216, call217, call218, call219, call220, call221, call222, call223, call224, call225, call226, call227, call228, call229, call230, call231, call232, call233, call234, call235, call236, call237, call238, call239, call240, call241, call242, call243, call244, call245, call246, call247, call248, call249, call250, call251, call252, call253, call254, call255, call256, call257, call258, call259, call260, call261, call262, call263, call264, call265, call266, call267, call268, call269, call270, call271, call272, call273, call274, call275, call276, call277, call278, call279, call280, call281, call282, call283, call284, call285, call286, call287, call288, call289, call290, call291, call292, call293, call294, call295, call296, call297, call298, call299, call300, call301, call302, call303, call304, call305, call306, call307, call308, call309, call310, call311, call312, call313, call314, call315, call316, call317, call318, call319, call320, call321, call322, call323, call324, call325, call326, call327, call328, call329, call330, call331, call332, call333, call334, call335, call336, call337, call338, call339, call340, call341, call342, call343, call344, call345, call346, call347, call348, call349, call350, call351, call352, call353, call354, call355, call356, call357, call358, call359, call360, call361, call362, call363, call364, call365, call366, call367, call368, call369, call370, call371, call372, call373, call374, call375, call376, call377, call378, call379, call380, call381, call382, call383, call384, call385, call386, call387, call388, call389, call390, call391, call392, call393, call394, call395, call396, call397, call398, call399, call400, call401, call402, call403, call404, call405, call406, call407, call408, call409, call410, call411, call412, call413, call414, call415, call416, call417, call418, call419, call420, call421, call422, call423, call424, call425, call426, call427, call428, call429, call430, call431, call432, call433, call434, call435, call436, call437, call438, call439, call440, call441, call442, call443, call444, call445, call446, call447, call448, call449, call450, call451, call452, call453, call454, call455, call456, call457, call458, call459, call460, call461, call462, call463, call464, call465, call466, call467, call468, call469, call470, call471, call472, call473, call474, call475, call476, call477, call478, call479, call480, call481, call482, call483, call484, call485, call486, call487, call488, call489, call490, call491, call492, call493, call494, call495, call496, call497, call498, call499, call500, call501, call502, call503};
// @entry h_wrappers mode=real time=240
extern "C" void h_wrappers()
{
  table[vx_choice("function", 504)]();
}
// The comparison tells arguments apart
// @entry h_differ mode=real
extern "C" void h_differ()
{
  std::pair<int, double> const a = Any<std::pair<int, double>>::make();
  std::pair<int, double> const b = Any<std::pair<int, double>>::make();
  bool const same = Any<std::pair<int, double>>::same(a, b);
  vx_assert(same == !(a.first < b.first || b.first < a.first || a.second < b.second || b.second < a.second), "equal means neither less nor greater");
  if (!same) {
    vx_reach("different arguments");
  }
}
