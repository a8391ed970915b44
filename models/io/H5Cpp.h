// In-memory stand-in for the HDF5 C++ interface (encoding only; native runs use the real library).
// A file is a list of named objects. Reading gives back exactly what was written under that name
// with that element type. What the library refuses (missing parents, names in use, missing data
// sets) ends the run, as the uncaught exception would.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
using hsize_t = unsigned long long;
enum H5T_class_t { H5T_INTEGER = 0, H5T_FLOAT = 1 };
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_TRUNC 2u
struct VxObj;
struct VxH5;
extern "C" void vx_model_limit();
namespace H5
{
class DataType
{
public:
  int cls = 0;
  size_t size = 0;
  constexpr DataType() = default;
  constexpr DataType(int c, size_t s) : cls(c), size(s) {}
  size_t getSize() const { return size; }
};
class PredType : public DataType
{
public:
  constexpr PredType(int c, size_t s) : DataType(c, s) {}
  static const PredType NATIVE_FLOAT, NATIVE_DOUBLE, NATIVE_INT8, NATIVE_INT16, NATIVE_INT32, NATIVE_INT64,
      NATIVE_UINT8, NATIVE_UINT16, NATIVE_UINT32, NATIVE_UINT64;
};
inline constexpr PredType PredType::NATIVE_FLOAT{1, 4};
inline constexpr PredType PredType::NATIVE_DOUBLE{1, 8};
inline constexpr PredType PredType::NATIVE_INT8{0, 1};
inline constexpr PredType PredType::NATIVE_INT16{0, 2};
inline constexpr PredType PredType::NATIVE_INT32{0, 4};
inline constexpr PredType PredType::NATIVE_INT64{0, 8};
inline constexpr PredType PredType::NATIVE_UINT8{0, 1};
inline constexpr PredType PredType::NATIVE_UINT16{0, 2};
inline constexpr PredType PredType::NATIVE_UINT32{0, 4};
inline constexpr PredType PredType::NATIVE_UINT64{0, 8};
class IntType : public DataType
{
public:
  constexpr IntType() = default;
  constexpr IntType(int c, size_t s) : DataType(c, s) {}
};
class FloatType : public DataType
{
public:
  constexpr FloatType() = default;
  constexpr FloatType(int c, size_t s) : DataType(c, s) {}
};
class DataSpace
{
public:
  int rank = 0;
  hsize_t dims[4];
  DataSpace() = default;
  DataSpace(int r, hsize_t const * d, hsize_t const * = nullptr);
  int getSimpleExtentNdims() const { return rank; }
  int getSimpleExtentDims(hsize_t * d, hsize_t * max = nullptr) const;
};
class DataSet
{
public:
  VxObj * o = nullptr;
  void write(void const * buf, DataType const & t, DataSpace const & s = DataSpace()) const;
  void read(void * buf, DataType const & t) const;
  H5T_class_t getTypeClass() const;
  IntType getIntType() const;
  FloatType getFloatType() const;
  DataSpace getSpace() const;
};
class Group
{
public:
  VxH5 * f = nullptr;
  char * path = nullptr;
  DataSet createDataSet(char const * name, DataType const & t, DataSpace const & s) const;
  DataSet openDataSet(char const * name) const;
  Group createGroup(char const * name) const;
};
class H5File : public Group
{
public:
  H5File(char const * name, unsigned flags);
  void close() {}
};
} // namespace H5
