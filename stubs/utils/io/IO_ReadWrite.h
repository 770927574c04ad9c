// Input/output is outside the contracts proved here: an opaque reader/writer.
#ifndef IO_READ_WRITE_H_
#define IO_READ_WRITE_H_
#include <map>
#include <string>
#include <shared/kokkos_shared.h>
#include <shared/HydroParams.h>
#include <utils/config/ConfigMap.h>
#include "utils/io/IO_ReadWriteBase.h"
namespace ppkMHD { namespace io {
class IO_ReadWrite : public IO_ReadWriteBase {
public:
  IO_ReadWrite(HydroParams&, ConfigMap&, std::map<int, std::string>&) {}
};
} }
#endif
