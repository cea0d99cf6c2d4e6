// Declarations-only stand-in for the HighFive headers: HighFive is not installed in this sandbox. It gives the parser
// the types and signatures that /repo uses, so that every translation unit can be type-checked and analysed.
#pragma once
#include <string>
#include <vector>
#include <initializer_list>
#include <cassert>
#include <cstddef>
#include <complex>
#include <array>
#include <type_traits>
namespace HighFive {
enum class ObjectType { File, Group, UserDataType, DataSpace, Dataset, Attribute, Other };
enum class LinkType { Hard, Soft, External, Other };
class Object { public: bool isValid() const noexcept; };
class DataType : public Object { public: DataType(); bool empty() const noexcept; std::size_t getSize() const; bool operator==(const DataType&) const; bool operator!=(const DataType&) const; };
template<class T> class AtomicType : public DataType { public: AtomicType(); };
class CompoundType : public DataType {
public:
  struct member_def { member_def(std::string n, DataType t, std::size_t o=0); std::string name; DataType base_type; std::size_t offset; };
  CompoundType(const std::initializer_list<member_def>& m, std::size_t size=0);
  CompoundType(const std::vector<member_def>& m, std::size_t size=0);
};
template<class E> class EnumType : public DataType {
public:
  struct member_def { member_def(const std::string& n, E v); std::string name; E value; };
  EnumType(const EnumType& other) = default;
  EnumType(const std::vector<member_def>& m);
  EnumType(std::initializer_list<member_def> m);
};
template<class T> DataType create_datatype();
template<class T> DataType create_and_check_datatype();
class DataSpace : public Object { public: explicit DataSpace(const std::vector<std::size_t>& dims); explicit DataSpace(std::initializer_list<std::size_t> dims); template<class... A> explicit DataSpace(std::size_t d, A... a); std::vector<std::size_t> getDimensions() const; std::size_t getElementCount() const; template<class T> static DataSpace From(const T&); };
class Attribute : public Object { public: template<class T> void read(T& out) const; template<class T> T read() const; template<class T> void write(const T& in); DataSpace getSpace() const; DataType getDataType() const; };
template<class D> class AnnotateTraits {
public:
  Attribute createAttribute(const std::string&, const DataSpace&, const DataType&);
  template<class T> Attribute createAttribute(const std::string&, const DataSpace&);
  template<class T> Attribute createAttribute(const std::string&, const T& data);
  Attribute getAttribute(const std::string&) const;
  bool hasAttribute(const std::string&) const;
  void deleteAttribute(const std::string&);
  std::size_t getNumberAttributes() const;
  std::vector<std::string> listAttributeNames() const;
};
class DataSet : public Object, public AnnotateTraits<DataSet> {
public:
  std::vector<std::size_t> getDimensions() const; std::size_t getElementCount() const; DataSpace getSpace() const; DataType getDataType() const;
  template<class T> void read(T& out) const;
  template<class T> void read(T* out) const;
  template<class T> T read() const;
  template<class T> void write(const T& in);
  template<class T> void write_raw(const T* in);
  void resize(const std::vector<std::size_t>&);
};
class Group;
template<class D> class NodeTraits {
public:
  DataSet createDataSet(const std::string&, const DataSpace&, const DataType&, bool parents=true);
  template<class T> DataSet createDataSet(const std::string&, const DataSpace&, bool parents=true);
  template<class T> DataSet createDataSet(const std::string&, const T& data, bool parents=true);
  DataSet getDataSet(const std::string&) const;
  Group createGroup(const std::string&, bool parents=true);
  Group getGroup(const std::string&) const;
  std::size_t getNumberObjects() const;
  std::vector<std::string> listObjectNames() const;
  std::string getObjectName(std::size_t) const;
  bool exist(const std::string&, bool raise_errors=true) const;
  void unlink(const std::string&) const;
  ObjectType getObjectType(const std::string&) const;
};
class Group : public Object, public NodeTraits<Group>, public AnnotateTraits<Group> { public: Group(); };
class File : public Object, public NodeTraits<File>, public AnnotateTraits<File> {
public:
  enum : unsigned { ReadOnly=0, ReadWrite=1, Truncate=2, Excl=4, Debug=8, Create=16, Overwrite=Truncate, OpenOrCreate=ReadWrite|Create };
  explicit File(const std::string& filename, unsigned openFlags=ReadOnly);
  void flush();
};
}
