// IR harness: includes only; -femit-all-decls emits the repository's own inline functions
#include <cstdint>
#include "z5/util/sharding.hxx"
