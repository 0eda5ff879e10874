// What the saving and loading of meshes and states uses of the HDF5 C++ interface, as an in-memory store: the assumed contract of that library.
// Files are overwritten by H5F_ACC_TRUNC and must exist for H5F_ACC_RDONLY; names must not exist when created, must exist when opened, and a data set's group must have been created;
// selections must lie inside the extent and have as many values as the memory, whose type must be that of the data set.
#ifndef VC_H5CPP_H_
#define VC_H5CPP_H_
#include <string>
#include <vector>
#include <stdexcept>
#include <cstdint>
typedef unsigned long long hsize_t;
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_RDONLY 0u
#define H5S_SELECT_SET 0
namespace H5
{
inline void require(bool ok, const char* what) {if (!ok) throw std::runtime_error(what);}
struct DataType {int id; DataType(int i = 0) : id{i} {}};
struct PredType : DataType
{
  PredType(int i) : DataType{i} {}
  static const PredType NATIVE_INT, NATIVE_DOUBLE, NATIVE_HBOOL;
};
struct Node
{
  std::string name;
  int kind; // 0 group, 1 data set, 2 attribute
  int type = 0;
  int rank = 0;
  hsize_t dims [3] {};
  int* ints = nullptr;
  double* reals = nullptr;
  unsigned char* bools = nullptr;
  bool* set = nullptr;
  hsize_t size() const {hsize_t n = 1; for (int i = 0; i < rank; ++i) n *= dims[i]; return n;}
  Node(std::string n, int k) : name{n}, kind{k} {}
  void alloc()
  {
    hsize_t n = size() + 1;
    if (type == 1) ints = new int [n];
    if (type == 2) reals = new double [n];
    if (type == 3) bools = new unsigned char [n];
    set = new bool [n] {};
  }
};
struct File_data
{
  std::string name;
  std::vector<Node*> nodes;
  Node* find(const std::string& s) {for (Node* n : nodes) if (n->name == s) return n; return nullptr;}
};
extern std::vector<File_data*>* files;
struct DataSpace
{
  int rank;
  hsize_t dims [3] {};
  hsize_t offset [3] {}, count [3] {};
  DataSpace(int r, const hsize_t* d, const hsize_t* = nullptr) : rank{r} {for (int i = 0; i < r; ++i) dims[i] = count[i] = d[i];}
  void selectHyperslab(int, const hsize_t* c, const hsize_t* start, const hsize_t* stride = nullptr, const hsize_t* block = nullptr)
  {
    for (int i = 0; i < rank; ++i) {
      count[i] = c[i];
      offset[i] = start[i];
      if (stride) require(stride[i] == 1, "only unit strides");
      if (block) require(block[i] == 1, "only unit blocks");
    }
  }
  int getSimpleExtentDims(hsize_t* d) const {for (int i = 0; i < rank; ++i) d[i] = dims[i]; return rank;}
  hsize_t n_selected() const {hsize_t n = 1; for (int i = 0; i < rank; ++i) n *= count[i]; return n;}
};
struct DataSet
{
  Node* n;
  DataSpace getSpace() const {return {n->rank, n->dims};}
  DataType getDataType() const {return n->type;}
  template <bool is_write> void transfer(char* data, DataType t, const DataSpace& m, const DataSpace& f) const
  {
    require(t.id == n->type, "type of memory and file must be the same");
    require(f.rank == n->rank, "selection of wrong rank");
    require(m.n_selected() == f.n_selected(), "number of selected values differs");
    for (int i = 0; i < f.rank; ++i) require(f.offset[i] + f.count[i] <= n->dims[i], "selection outside of the data set");
    hsize_t k = 0;
    hsize_t c1 = f.rank > 1 ? f.count[1] : 1, c2 = f.rank > 2 ? f.count[2] : 1, d1 = f.rank > 1 ? n->dims[1] : 1, d2 = f.rank > 2 ? n->dims[2] : 1;
    for (hsize_t i = 0; i < f.count[0]; ++i) for (hsize_t j = 0; j < c1; ++j) for (hsize_t l = 0; l < c2; ++l) {
      hsize_t a = ((f.offset[0] + i)*d1 + f.offset[1] + j)*d2 + f.offset[2] + l;
      if (is_write) n->set[a] = true;
      else require(n->set[a], "read of values never written");
      if (n->type == 1) {int* p = reinterpret_cast<int*>(data) + k; if (is_write) n->ints[a] = *p; else *p = n->ints[a];}
      if (n->type == 2) {double* p = reinterpret_cast<double*>(data) + k; if (is_write) n->reals[a] = *p; else *p = n->reals[a];}
      if (n->type == 3) {unsigned char* p = reinterpret_cast<unsigned char*>(data) + k; if (is_write) n->bools[a] = *p; else *p = n->bools[a];}
      ++k;
    }
  }
  void write(const void* d, DataType t, const DataSpace& m, const DataSpace& f) const {transfer<true>(reinterpret_cast<char*>(const_cast<void*>(d)), t, m, f);}
  void read(void* d, DataType t, const DataSpace& m, const DataSpace& f) const {transfer<false>(reinterpret_cast<char*>(d), t, m, f);}
};
struct Attribute
{
  Node* n;
  void write(DataType t, const void* d) {DataSet{n}.write(d, t, DataSpace(1, n->dims), DataSpace(1, n->dims));}
  void read(DataType t, void* d) {DataSet{n}.read(d, t, DataSpace(1, n->dims), DataSpace(1, n->dims));}
};
struct H5Object
{
  File_data* f = nullptr;
  Node* make(const std::string& name, int kind, DataType t, const DataSpace& s)
  {
    require(!f->find(name), "name exists already");
    Node* n = new Node(name, kind);
    n->type = t.id;
    n->rank = s.rank;
    for (int i = 0; i < s.rank; ++i) n->dims[i] = s.dims[i];
    n->alloc();
    f->nodes.push_back(n);
    return n;
  }
  Attribute createAttribute(const std::string& name, DataType t, const DataSpace& s) {return {make("@" + name, 2, t, s)};}
  Attribute openAttribute(const char* name) {Node* n = f->find(std::string("@") + name); require(n, "no such attribute"); return {n};}
};
struct Group {};
struct H5File : H5Object
{
  static std::string norm(const std::string& s) {return s[0] == '/' ? s : "/" + s;}
  void require_parent(const std::string& s)
  {
    auto k = s.rfind('/');
    if (k == 0) return;
    Node* n = f->find(s.substr(0, k));
    require(n && n->kind == 0, "no such group");
  }
  H5File(const std::string& name, unsigned flags)
  {
    if (!files) files = new std::vector<File_data*>;
    for (File_data* g : *files) if (g->name == name) f = g;
    if (flags == H5F_ACC_TRUNC) {
      if (!f) {files->push_back(f = new File_data); f->name = name;}
      f->nodes.clear();
    } else require(f, "no such file");
  }
  Group createGroup(const std::string& name)
  {
    std::string s = norm(name);
    require_parent(s);
    require(!f->find(s), "group exists already");
    f->nodes.push_back(new Node(s, 0));
    return {};
  }
  DataSet createDataSet(const std::string& name, DataType t, const DataSpace& s) {require_parent(norm(name)); return {make(norm(name), 1, t, s)};}
  DataSet openDataSet(const std::string& name) {Node* n = f->find(norm(name)); require(n && n->kind == 1, "no such data set"); return {n};}
  bool exists(const std::string& name) {return f->find(norm(name));}
};
}
#endif
