// @src src/mesh/polytope_soup.cpp src/common/logger.cpp src/common/settings.cpp
// @config UM2_USE_HDF5=1 UM2_USE_PUGIXML=1
// @models io
// @native -I/usr/include/hdf5/serial -lpugixml -lhdf5_serial -lhdf5_serial_cpp
