"""Contracts of the data containers (C19)."""
from .base import *

def buf(s, i):
    """the buffer a pointer argument points into: index -> element"""
    p = s.eng.read(s.st, s.argpaths[i])
    root, steps = p.path
    v = s.eng.read(s.st, (root, steps[:-1]))
    off = steps[-1][1]
    return lambda k: v[off + k]

def at(b, i, j, nrow, ncol, rowmajor):
    return If(rowmajor, b(ncol * i + j), b(nrow * j + i))

def loaded(m, b, nrow, ncol, rowmajor):
    """matrix m holds the buffer in the given storage order"""
    i, j = V("i"), V("j")
    return [("rows", m.rows == nrow), ("columns", m.cols == ncol),
            ("row major values", Implies(rowmajor, FA([i, j], Implies(And(rng(i, 0, nrow), rng(j, 0, ncol)), m[i, j] == b(ncol * i + j)), [m[i, j]]))),
            ("column major values", Implies(Not(rowmajor), FA([i, j], Implies(And(rng(i, 0, nrow), rng(j, 0, ncol)), m[i, j] == b(nrow * j + i)), [m[i, j]])))]

def vloaded(v, b, n):
    i = V("i")
    return [("length", v.rows == n), ("values", FA(i, Implies(rng(i, 0, n), v[i] == b(i)), [v[i]]))]

def nonneg(s, *ix): return [("sizes", And(*[s.a(i) >= 0 for i in ix]))]

class DataC(Contract):
    modifies = ("this",)
    props = ("C19",)

@contract
class MatrixLoad(DataC):
    name = "ColumnMatrix::LoadData"
    def requires(self, s): return nonneg(s, 1, 2)
    def ensures(self, s): return loaded(s.this.data_, buf(s, 0), s.a(1), s.a(2), s.a(3))
@contract
class MatrixCtor(DataC):
    name = "ColumnMatrix::ColumnMatrix"
    sig = ["*r", "i", "i", "b"]
    inline_calls = True
    def requires(self, s): return nonneg(s, 1, 2)
    def ensures(self, s): return loaded(s.this.data_, buf(s, 0), s.a(1), s.a(2), s.a(3))
@contract
class VectorLoad(DataC):
    name = "ColumnVector::LoadData"
    def requires(self, s): return nonneg(s, 1)
    def ensures(self, s): return vloaded(s.this.data_, buf(s, 0), s.a(1))
@contract
class VectorCtor(DataC):
    name = "ColumnVector::ColumnVector"
    sig = ["*r", "i"]
    inline_calls = True
    def requires(self, s): return nonneg(s, 1)
    def ensures(self, s): return vloaded(s.this.data_, buf(s, 0), s.a(1))
@contract
class FreeLoadMatrix(DataC):
    name = "LoadData"
    sig = ["*r", "i", "i", "b", "mat"]
    modifies = (4,)
    def requires(self, s): return nonneg(s, 1, 2)
    def ensures(self, s): return loaded(s.a(4), buf(s, 0), s.a(1), s.a(2), s.a(3))
@contract
class FreeLoadVector(DataC):
    name = "LoadData"
    sig = ["*r", "i", "mat"]
    modifies = (2,)
    def requires(self, s): return nonneg(s, 1)
    def ensures(self, s): return vloaded(s.a(2), buf(s, 0), s.a(1))

# ---- element access
@contract
class MatrixGet(DataC):
    name = "ColumnMatrix::GetElement"
    modifies = ()
    inline_calls = True
    def requires(self, s): return [("in range", And(rng(s.a(0), 0, s.this.data_.rows), rng(s.a(1), 0, s.this.data_.cols)))]
    def ensures(self, s): return [("element", s.ret == s.this.data_[s.a(0), s.a(1)])]
@contract
class MatrixSet(DataC):
    name = "ColumnMatrix::SetElement"
    inline_calls = True
    def requires(self, s): return [("in range", And(rng(s.a(0), 0, s.this.data_.rows), rng(s.a(1), 0, s.this.data_.cols)))]
    def ensures(self, s):
        m, o, r, c = s.this.data_, s.old.this.data_, s.a(0), s.a(1)
        i, j = V("i"), V("j")
        return [("element", m[r, c] == s.a(2)), ("others", FA([i, j], Implies(Or(i != r, j != c), m[i, j] == o[i, j]), [m[i, j]])), ("size", And(m.rows == o.rows, m.cols == o.cols))]
@contract
class VectorGet(DataC):
    name = "ColumnVector::GetElement"
    modifies = ()
    inline_calls = True
    def requires(self, s): return [("in range", rng(s.a(0), 0, s.this.data_.rows))]
    def ensures(self, s): return [("element", s.ret == s.this.data_[s.a(0)])]
@contract
class VectorSet(DataC):
    name = "ColumnVector::SetElement"
    inline_calls = True
    def requires(self, s): return [("in range", rng(s.a(0), 0, s.this.data_.rows))]
    def ensures(self, s):
        m, o, r = s.this.data_, s.old.this.data_, s.a(0)
        i = V("i")
        return [("element", m[r] == s.a(1)), ("others", FA(i, Implies(i != r, m[i] == o[i]), [m[i]])), ("size", m.rows == o.rows)]
class Size(DataC):
    modifies = ()
    inline_calls = True
@contract
class MatrixRows(Size):
    name = "ColumnMatrix::NumRows"
    def ensures(self, s): return [("rows", s.ret == s.this.data_.rows)]
@contract
class MatrixCols(Size):
    name = "ColumnMatrix::NumCols"
    def ensures(self, s): return [("columns", s.ret == s.this.data_.cols)]
@contract
class VectorRows(Size):
    name = "ColumnVector::NumRows"
    def ensures(self, s): return [("rows", s.ret == s.this.data_.rows)]

# ---- datasets
def others_kept(s, changed):
    t, u = s.this, s.old.this
    return [("keeps " + k, veq(getattr(t, k), getattr(u, k))) for k in t.f if k not in changed]

class AddMatrix(DataC):
    field = None; flag = None; extra = ()
    def requires(self, s): return nonneg(s, 1, 2)
    def ensures(self, s):
        t = s.this
        out = loaded(getattr(t, self.field).data_, buf(s, 0), s.a(1), s.a(2), s.a(3)) + [("flag", getattr(t, self.flag))]
        for f, i in self.extra: out.append((f, getattr(t, f) == s.a(i)))
        return out + others_kept(s, {self.field, self.flag} | {f for f, _ in self.extra})
class AddVector(DataC):
    def requires(self, s): return nonneg(s, 1)
    def ensures(self, s):
        t = s.this
        return vloaded(t.var_weights_.data_, buf(s, 0), s.a(1)) + [("flag", t.has_var_weights_)] + others_kept(s, {"var_weights_", "has_var_weights_"})
@contract
class AddCovariates(AddMatrix):
    name = "ForestDataset::AddCovariates"; field = "covariates_"; flag = "has_covariates_"; extra = (("num_observations_", 1), ("num_covariates_", 2))
@contract
class AddBasis(AddMatrix):
    name = "ForestDataset::AddBasis"; field = "basis_"; flag = "has_basis_"; extra = (("num_basis_", 2),)
@contract
class AddWeights(AddVector): name = "ForestDataset::AddVarianceWeights"
@contract
class AddRfxBasis(AddMatrix):
    name = "RandomEffectsDataset::AddBasis"; field = "basis_"; flag = "has_basis_"
@contract
class AddRfxWeights(AddVector): name = "RandomEffectsDataset::AddVarianceWeights"
@contract
class AddRfxGroups(DataC):
    name = "RandomEffectsDataset::AddGroupLabels"
    def ensures(self, s): return [("labels", veq(s.this.group_labels_, s.a(0))), ("flag", s.this.has_group_labels_)] + others_kept(s, {"group_labels_", "has_group_labels_"})

@contract
class UpdateBasis(DataC):
    """raises unless a basis of the same dimensions is present; otherwise replaces every value"""
    name = "ForestDataset::UpdateBasis"
    may_throw = True
    def requires(self, s): return nonneg(s, 1, 2) + [("columns recorded", Implies(s.this.has_basis_, s.this.num_basis_ == s.this.basis_.data_.cols))]
    def ensures(self, s):
        t, u = s.this, s.old.this
        return loaded(t.basis_.data_, buf(s, 0), s.a(1), s.a(2), s.a(3)) + others_kept(s, {"basis_"}) + [
            ("had a basis of this size", And(u.has_basis_, u.basis_.data_.rows == s.a(1), u.basis_.data_.cols == s.a(2)))]

class DsGet(DataC):
    modifies = ()
    inline_calls = True
@contract
class CovariateValue(DsGet):
    name = "ForestDataset::CovariateValue"
    def requires(self, s): return [("in range", And(rng(s.a(0), 0, s.this.covariates_.data_.rows), rng(s.a(1), 0, s.this.covariates_.data_.cols)))]
    def ensures(self, s): return [("value", s.ret == s.this.covariates_.data_[s.a(0), s.a(1)])]
@contract
class BasisValue(DsGet):
    name = "ForestDataset::BasisValue"
    def requires(self, s): return [("in range", And(rng(s.a(0), 0, s.this.basis_.data_.rows), rng(s.a(1), 0, s.this.basis_.data_.cols)))]
    def ensures(self, s): return [("value", s.ret == s.this.basis_.data_[s.a(0), s.a(1)])]
@contract
class WeightValue(DsGet):
    name = "ForestDataset::VarWeightValue"
    def requires(self, s): return [("in range", rng(s.a(0), 0, s.this.var_weights_.data_.rows))]
    def ensures(self, s): return [("value", s.ret == s.this.var_weights_.data_[s.a(0)])]
@contract
class RfxBasisValue(DsGet):
    name = "RandomEffectsDataset::BasisValue"
    def requires(self, s): return [("in range", And(rng(s.a(0), 0, s.this.basis_.data_.rows), rng(s.a(1), 0, s.this.basis_.data_.cols)))]
    def ensures(self, s): return [("value", s.ret == s.this.basis_.data_[s.a(0), s.a(1)])]
@contract
class RfxWeightValue(DsGet):
    name = "RandomEffectsDataset::VarWeightValue"
    def requires(self, s): return [("in range", rng(s.a(0), 0, s.this.var_weights_.data_.rows))]
    def ensures(self, s): return [("value", s.ret == s.this.var_weights_.data_[s.a(0)])]
@contract
class RfxGroupId(DsGet):
    name = "RandomEffectsDataset::GroupId"
    def requires(self, s): return [("in range", rng(s.a(0), 0, s.this.group_labels_.len))]
    def ensures(self, s): return [("value", s.ret == s.this.group_labels_[s.a(0)])]
