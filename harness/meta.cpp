// instantiates the metadata functions for the verifier
#include "z5/metadata.hxx"
using namespace z5;
extern DatasetMetadata & sink(DatasetMetadata &);
void use(types::Datatype dt, const types::ShapeType & s, const types::ShapeType & c, bool z, types::Compressor co, const types::CompressionOptions & o, double f,
         const std::string & d, int fmt, const std::string & enc, const types::ShapeType & sh, nlohmann::json & j, bool b) {
    DatasetMetadata m(dt, s, c, z, co, o, f, d, fmt, enc, sh);
    m.toJson(j); sink(m).fromJson(j, b);
    createDatasetMetadata(d, s, c, z, d, o, f, d, m, fmt, enc, sh);
}
// where the members live: the addresses are taken by the real accessors of the class
#define AT(T, F) const T * at_##F(const DatasetMetadata & m) { return &m.F; }
AT(types::ShapeType, shape) AT(types::ShapeType, chunkShape) AT(types::ShapeType, shardShape) AT(types::Datatype, dtype) AT(types::Compressor, compressor)
AT(types::CompressionOptions, compressionOptions) AT(double, fillValue) AT(std::string, zarrDelimiter) AT(std::string, chunkKeyEncoding) AT(bool, isZarr) AT(int, zarrFormat)
// client of the two conversions
void roundtrip(const DatasetMetadata & m, DatasetMetadata & n) { nlohmann::json j; m.toJson(j); n.fromJson(j, m.isZarr); }
