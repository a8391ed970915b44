// The part of the meshing library's stand-in that concerns mesh sizes, options and mesh generation
#include "fakegmsh.inc"
namespace fake
{
struct Field {
  int tag;
  std::string type;
  double inside;
  int dim; // of the shapes listed; -1: fields are listed
  std::vector<double> list;
  std::string expr;
};
struct Option {
  std::string name;
  double value;
};
static std::vector<Field> fields;
static std::vector<Option> options;
static int background = 0;
static int generated = 0; // calls
static int order = 0;
static int generated_dim = 0;
static bool recombined = false;
static bool subdivided = false;
static Pairs sized;
static double size = 0;
static double option(char const * name, double otherwise)
{
  double r = otherwise;
  for (std::size_t i = 0; i < options.size(); ++i) {
    if (options[i].name == name) {
      r = options[i].value;
    }
  }
  return r;
}
static Field & field(int tag)
{
  for (std::size_t i = 0; i < fields.size(); ++i) {
    if (fields[i].tag == tag) {
      return fields[i];
    }
  }
  vx_never("fields used exist");
  return fields[0];
}
} // namespace fake
namespace gmsh
{
namespace option
{
void setNumber(const std::string & name, const double value) { fake::options.push_back({name, value}); }
} // namespace option
namespace model
{
namespace mesh
{
void generate(const int dim)
{
  ++fake::generated;
  fake::generated_dim = dim;
  fake::order = 1;
  fake::recombined = fake::option("Mesh.RecombineAll", 0) != 0;
  fake::subdivided = fake::option("Mesh.SubdivisionAlgorithm", 0) != 0;
}
void setOrder(const int order)
{
  fake::need(fake::generated > 0, "there is a mesh to be curved");
  fake::order = order;
}
void setSize(const vectorpair & dimTags, const double size)
{
  fake::sized = dimTags;
  fake::size = size;
}
namespace field
{
int add(const std::string & fieldType, const int tag)
{
  fake::need(tag == -1, "tags of fields are given by the library");
  fake::Field f;
  f.tag = static_cast<int>(fake::fields.size()) + 1;
  f.type = fieldType;
  f.inside = 1e22;
  f.dim = -2;
  fake::fields.push_back(f);
  return f.tag;
}
void setNumber(const int tag, const std::string & option, const double value)
{
  fake::Field & f = fake::field(tag);
  fake::need(f.type == "Constant" && option == "VIn", "number of a constant field");
  f.inside = value;
}
void setNumbers(const int tag, const std::string & option, const std::vector<double> & values)
{
  fake::Field & f = fake::field(tag);
  fake::need(!values.empty(), "lists are not empty");
  if (f.type == "Min" || f.type == "Max") {
    fake::need(option == "FieldsList", "fields are combined");
    f.dim = -1;
  } else {
    fake::need(f.type == "Constant" || f.type == "Distance", "fields of shapes");
    f.dim = option == "PointsList" ? 0 : option == "CurvesList" ? 1 : option == "SurfacesList" ? 2 : 3;
    fake::need(f.dim != 3 || option == "VolumesList", "list of shapes");
    // the distance to a volume is not known to the library
    fake::need(f.type == "Constant" || f.dim < 3, "distance to points, curves or surfaces");
  }
  f.list = values;
}
void setString(const int tag, const std::string & option, const std::string & value)
{
  fake::Field & f = fake::field(tag);
  fake::need(f.type == "MathEval" && option == "F", "expression of a field");
  f.expr = value;
}
void setAsBackgroundMesh(const int tag) { fake::background = tag; }
} // namespace field
} // namespace mesh
} // namespace model
} // namespace gmsh
