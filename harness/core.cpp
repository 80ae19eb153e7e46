// IR harness: nothing but instantiation requests for the repository's own templates (no look-alike code)
#include <cstdint>
#include "z5/util/blocking.hxx"
#include "z5/multiarray/array_util.hxx"
#include "z5/multiarray/array_view.hxx"
#include "z5/dataset.hxx"
#define INST(T) \
template void z5::multiarray::copyView<T>(const z5::multiarray::ConstArrayView<T>&, const z5::multiarray::ArrayView<T>&); \
template void z5::multiarray::fillView<T>(const z5::multiarray::ArrayView<T>&, T); \
template z5::multiarray::ArrayView<T> z5::multiarray::subview<T>(const z5::multiarray::ArrayView<T>&, const z5::types::ShapeType&, const z5::types::ShapeType&); \
template z5::multiarray::ConstArrayView<T> z5::multiarray::subview<T>(const z5::multiarray::ConstArrayView<T>&, const z5::types::ShapeType&, const z5::types::ShapeType&);
INST(int16_t) INST(uint8_t) INST(int64_t) INST(double)
