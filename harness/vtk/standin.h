// a stand-in for the part of VTK that writes grids (there is no VTK here): it keeps what it is told, and what is
// written, in memory, and notes calls that VTK would not take
#pragma once
#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>

#define VTK_MAJOR_VERSION 9
#define VTK_MINOR_VERSION 0
#define VTK_LINE 3
#define VTK_TRIANGLE 5
#define VTK_TETRA 10
using vtkIdType = long long;

namespace vtkstandin {
    inline std::vector<std::string> & misuses()
    {
        static std::vector<std::string> all;
        return all;
    }
    inline void misuse(const std::string & s) { misuses().push_back(s); }
}

// objects count their references, as VTK's do
struct vtkObjectBase {
    int references = 1;
    virtual ~vtkObjectBase() {}
    void Register(vtkObjectBase *) { ++references; }
    void Delete()
    {
        if (--references == 0)
            delete this;
    }
    void UnRegister(vtkObjectBase *) { Delete(); }
};
struct vtkObject : vtkObjectBase {
    void Modified() {}
};

template <class T>
class vtkSmartPointer {
    T * p = nullptr;

  public:
    vtkSmartPointer() {}
    vtkSmartPointer(T * q) : p(q)
    {
        if (p)
            p->Register(nullptr);
    }
    vtkSmartPointer(const vtkSmartPointer & o) : vtkSmartPointer(o.p) {}
    template <class U>
    vtkSmartPointer(const vtkSmartPointer<U> & o) : vtkSmartPointer(o.GetPointer())
    {}
    vtkSmartPointer(vtkSmartPointer && o) : p(o.p) { o.p = nullptr; }
    vtkSmartPointer & operator=(vtkSmartPointer o)
    {
        std::swap(p, o.p);
        return *this;
    }
    ~vtkSmartPointer()
    {
        if (p)
            p->Delete();
    }
    static vtkSmartPointer New()
    {
        vtkSmartPointer r;
        r.p = T::New();
        return r;
    }
    static vtkSmartPointer Take(T * q)
    {
        vtkSmartPointer r;
        r.p = q;
        return r;
    }
    T * operator->() const { return p; }
    T & operator*() const { return *p; }
    T * Get() const { return p; }
    T * GetPointer() const { return p; }
    operator T *() const { return p; }
};
template <class T>
class vtkNew : public vtkSmartPointer<T> {
  public:
    vtkNew() : vtkSmartPointer<T>(vtkSmartPointer<T>::New()) {}
};

struct vtkIdList : vtkObject {
    std::vector<vtkIdType> ids;
    static vtkIdList * New() { return new vtkIdList; }
    void SetNumberOfIds(vtkIdType n) { ids.resize(n, -1); }
    vtkIdType GetNumberOfIds() const { return ids.size(); }
    void SetId(vtkIdType i, vtkIdType id)
    {
        if (i < 0 || i >= GetNumberOfIds())
            return vtkstandin::misuse("SetId out of range");
        ids[i] = id;
    }
    vtkIdType InsertNextId(vtkIdType id)
    {
        ids.push_back(id);
        return ids.size() - 1;
    }
    vtkIdType GetId(vtkIdType i) const { return ids.at(i); }
};

struct vtkPoints : vtkObject {
    std::vector<std::array<double, 3>> points;
    static vtkPoints * New() { return new vtkPoints; }
    vtkIdType InsertNextPoint(double x, double y, double z)
    {
        points.push_back({ x, y, z });
        return points.size() - 1;
    }
    vtkIdType InsertNextPoint(const double * x) { return InsertNextPoint(x[0], x[1], x[2]); }
    vtkIdType GetNumberOfPoints() const { return points.size(); }
    void SetNumberOfPoints(vtkIdType n) { points.resize(n); }
    void SetPoint(vtkIdType i, double x, double y, double z)
    {
        if (i < 0 || i >= GetNumberOfPoints())
            return vtkstandin::misuse("SetPoint out of range");
        points[i] = { x, y, z };
    }
    void InsertPoint(vtkIdType i, double x, double y, double z)
    {
        if (i >= GetNumberOfPoints())
            points.resize(i + 1);
        points[i] = { x, y, z };
    }
    double * GetPoint(vtkIdType i) { return points.at(i).data(); }
    void SetDataTypeToDouble() {}
};

struct vtkCell : vtkObject {
    int type;
    vtkSmartPointer<vtkIdList> ids = vtkSmartPointer<vtkIdList>::New();
    vtkIdList * PointIds = ids;
    vtkCell(int t, int n) : type(t) { ids->SetNumberOfIds(n); }
    int GetCellType() const { return type; }
    vtkIdList * GetPointIds() const { return ids; }
    vtkIdType GetNumberOfPoints() const { return ids->GetNumberOfIds(); }
};
struct vtkLine : vtkCell {
    vtkLine() : vtkCell(VTK_LINE, 2) {}
    static vtkLine * New() { return new vtkLine; }
};
struct vtkTriangle : vtkCell {
    vtkTriangle() : vtkCell(VTK_TRIANGLE, 3) {}
    static vtkTriangle * New() { return new vtkTriangle; }
};
struct vtkTetra : vtkCell {
    vtkTetra() : vtkCell(VTK_TETRA, 4) {}
    static vtkTetra * New() { return new vtkTetra; }
};

struct vtkAbstractArray : vtkObject {
    std::string name;
    void SetName(const char * s) { name = s; }
    const char * GetName() const { return name.c_str(); }
};
struct vtkDoubleArray : vtkAbstractArray {
    int components = 1;
    std::vector<double> values;
    static vtkDoubleArray * New() { return new vtkDoubleArray; }
    void SetNumberOfComponents(int n)
    {
        if (n < 1)
            return vtkstandin::misuse("no components");
        components = n;
    }
    int GetNumberOfComponents() const { return components; }
    void SetNumberOfTuples(vtkIdType n) { values.resize(n * components, -777); }
    vtkIdType GetNumberOfTuples() const { return values.size() / components; }
    void SetTuple(vtkIdType i, const double * x)
    {
        if (i < 0 || i >= GetNumberOfTuples())
            return vtkstandin::misuse("SetTuple out of range");
        std::copy(x, x + components, values.begin() + i * components);
    }
    void InsertTuple(vtkIdType i, const double * x)
    {
        if (i >= GetNumberOfTuples())
            SetNumberOfTuples(i + 1);
        SetTuple(i, x);
    }
    vtkIdType InsertNextTuple(const double * x)
    {
        InsertTuple(GetNumberOfTuples(), x);
        return GetNumberOfTuples() - 1;
    }
    void SetComponent(vtkIdType i, int k, double x)
    {
        if (i < 0 || i >= GetNumberOfTuples() || k < 0 || k >= components)
            return vtkstandin::misuse("SetComponent out of range");
        values[i * components + k] = x;
    }
    void SetTuple1(vtkIdType i, double x) { SetComponent(i, 0, x); }
    void SetValue(vtkIdType i, double x)
    {
        if (i < 0 || i >= (vtkIdType) values.size())
            return vtkstandin::misuse("SetValue out of range");
        values[i] = x;
    }
};
using vtkDataArray = vtkDoubleArray;

struct vtkPointData : vtkObject {
    std::vector<vtkSmartPointer<vtkDoubleArray>> arrays;
    static vtkPointData * New() { return new vtkPointData; }
    // an array takes the place of one of the same name
    int AddArray(vtkDoubleArray * a)
    {
        for (size_t i = 0; i < arrays.size(); ++i)
            if (arrays[i]->name == a->name) {
                arrays[i] = a;
                return i;
            }
        arrays.push_back(a);
        return arrays.size() - 1;
    }
    int GetNumberOfArrays() const { return arrays.size(); }
};

struct vtkUnstructuredGrid : vtkObject {
    vtkSmartPointer<vtkPoints> points;
    vtkSmartPointer<vtkPointData> data = vtkSmartPointer<vtkPointData>::New();
    std::vector<std::pair<int, std::vector<vtkIdType>>> cells;
    static vtkUnstructuredGrid * New() { return new vtkUnstructuredGrid; }
    void Allocate(vtkIdType = 0) {}
    vtkIdType InsertNextCell(int type, vtkIdList * ids)
    {
        cells.push_back({ type, ids->ids });
        return cells.size() - 1;
    }
    vtkIdType InsertNextCell(int type, vtkIdType n, const vtkIdType * ids)
    {
        cells.push_back({ type, { ids, ids + n } });
        return cells.size() - 1;
    }
    void SetPoints(vtkPoints * p) { points = p; }
    vtkPoints * GetPoints() const { return points; }
    vtkIdType GetNumberOfPoints() const { return points ? points->GetNumberOfPoints() : 0; }
    vtkIdType GetNumberOfCells() const { return cells.size(); }
    vtkPointData * GetPointData() const { return data; }
};

namespace vtkstandin {
    struct File {
        std::string name;
        // of the parallel kind: number of pieces, first and last of this process
        std::vector<int> pieces;
        std::vector<std::array<double, 3>> points;
        std::vector<std::pair<int, std::vector<vtkIdType>>> cells;
        struct Array {
            std::string name;
            int components;
            std::vector<double> values;
        };
        std::vector<Array> arrays;
    };
    inline std::vector<File> & files()
    {
        static std::vector<File> all;
        return all;
    }
    inline void write(const std::string & name, vtkUnstructuredGrid * grid, const std::vector<int> & pieces)
    {
        if (name.empty() || !grid)
            return misuse("nothing to write");
        File f{ name, pieces, {}, grid->cells, {} };
        if (grid->points)
            f.points = grid->points->points;
        for (const auto & a : grid->data->arrays)
            f.arrays.push_back({ a->name, a->components, a->values });
        files().push_back(f);
    }
    // the process, of how many
    inline int rank = 0, size = 1, controllers = 0;
}

struct vtkXMLUnstructuredGridWriter : vtkObject {
    std::string name;
    vtkSmartPointer<vtkUnstructuredGrid> grid;
    static vtkXMLUnstructuredGridWriter * New() { return new vtkXMLUnstructuredGridWriter; }
    void SetFileName(const char * s) { name = s; }
    void SetInputData(vtkUnstructuredGrid * g) { grid = g; }
    void SetDataModeToAscii() {}
    void SetDataModeToBinary() {}
    int Write()
    {
        vtkstandin::write(name, grid, {});
        return 1;
    }
};
struct vtkXMLPUnstructuredGridWriter : vtkObject {
    std::string name;
    vtkSmartPointer<vtkUnstructuredGrid> grid;
    int n = 1, first = 0, last = 0;
    static vtkXMLPUnstructuredGridWriter * New() { return new vtkXMLPUnstructuredGridWriter; }
    void SetFileName(const char * s) { name = s; }
    void SetInputData(vtkUnstructuredGrid * g) { grid = g; }
    void SetNumberOfPieces(int k) { n = k; }
    void SetStartPiece(int k) { first = k; }
    void SetEndPiece(int k) { last = k; }
    int Write()
    {
        if (vtkstandin::controllers < 1)
            vtkstandin::misuse("no controller");
        vtkstandin::write(name, grid, { n, first, last });
        return 1;
    }
};
struct vtkMultiProcessController : vtkObject {
    static void SetGlobalController(vtkMultiProcessController *) {}
    int GetNumberOfProcesses() const { return vtkstandin::size; }
    int GetLocalProcessId() const { return vtkstandin::rank; }
    void Barrier() {}
};
struct vtkMPIController : vtkMultiProcessController {
    static vtkMPIController * New() { return new vtkMPIController; }
    void Initialize(int * = nullptr, char *** = nullptr, int = 0) { ++vtkstandin::controllers; }
    void Finalize(int = 0) { --vtkstandin::controllers; }
};
