// Input/output is outside the contracts proved here: an opaque reader/writer.
#ifndef IO_READ_WRITE_SDM_H_
#define IO_READ_WRITE_SDM_H_
#include "utils/io/IO_ReadWrite.h"
#include "sdm/SDM_Geometry.h"
namespace ppkMHD { namespace io {
template <int dim, int N>
class IO_ReadWrite_SDM : public IO_ReadWrite {
public:
  IO_ReadWrite_SDM(HydroParams& p, ConfigMap& c, std::map<int, std::string>& v, sdm::SDM_Geometry<dim, N>) : IO_ReadWrite(p, c, v) {}
};
} }
#endif
