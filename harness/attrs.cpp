// IR harness: nothing but instantiation requests for the repository's own templates (no look-alike code)
#include "z5/attributes.hxx"
#include "z5/metadata.hxx"
#include "z5/filesystem/metadata.hxx"
#include "z5/filesystem/handle.hxx"
namespace fh = z5::filesystem::handle; namespace zh = z5::handle; using json = nlohmann::json;
#define INST(B, T) \
template void z5::readAttributes<fh::T>(const zh::B<fh::T> &, json &); \
template void z5::writeAttributes<fh::T>(const zh::B<fh::T> &, const json &); \
template void z5::removeAttribute<fh::T>(const zh::B<fh::T> &, const std::string &);
INST(Group, Group) INST(Dataset, Dataset)
template void z5::writeAttributes<fh::File>(const zh::File<fh::File> &, const json &);
template void z5::removeAttribute<fh::File>(const zh::File<fh::File> &, const std::string &);
template void z5::readAttributes<fh::File>(const zh::Group<fh::File> &, json &);
