// Coefficients, spaces and reference integrals for second-order elliptic forms.
#pragma once
#include "fem.h"

namespace ell {
using namespace fem;
using Eigen::MatrixXcd;
using Eigen::VectorXcd;
using lf::mesh::utils::MeshFunctionConstant;
using lf::mesh::utils::MeshFunctionGlobal;

inline cplx to_c(double a) { return a; }
inline cplx to_c(cplx a) { return a; }
template <class D>
MatrixXcd to_c(const Eigen::MatrixBase<D>& m) {
  return m.template cast<cplx>();
}
inline MatrixXcd tensor(cplx a, int n) { return a * MatrixXcd::Identity(n, n); }
inline MatrixXcd tensor(const MatrixXcd& a, int) { return a; }

// shape data in given reference points, computed here from the derivative of
// the element map
struct At {
  MatrixXd X;        // physical points
  VectorXd det;      // metric factor
  std::vector<MatrixXd> G;  // maps reference to physical gradients
};
inline At shape_at(const Entity& e, const MatrixXd& x) {
  At a;
  const auto* g = e.Geometry();
  const int d = x.rows();
  a.X = g->Global(x);
  const MatrixXd J = g->Jacobian(x);
  a.det.resize(x.cols());
  for (int k = 0; k < x.cols(); ++k) {
    const MatrixXd Jk = J.middleCols(d * k, d);
    const MatrixXd gram = Jk.transpose() * Jk;
    a.det(k) = std::sqrt(std::abs(gram.determinant()));
    a.G.push_back(Jk * gram.inverse());
  }
  return a;
}
enum Form { kDiffusion, kMass };
struct Res {
  MatrixXcd M;
  double scale = 0;  // sum of magnitudes, for tolerances
};
// element matrix: rows test functions, columns trial functions
template <class S, class MF>
Res form_matrix(Form f, const Entity& e, const ScalarReferenceFiniteElement<S>& fe, const MF& coef, const MatrixXd& x, const VectorXd& w) {
  const At a = shape_at(e, x);
  const int n = fe.NumRefShapeFunctions(), d = x.rows();
  const auto B = fe.EvalReferenceShapeFunctions(x);
  const auto c = coef(e, x);
  Res r;
  r.M = MatrixXcd::Zero(n, n);
  for (int k = 0; k < x.cols(); ++k) {
    const double wk = w(k) * a.det(k);
    if (f == kDiffusion) {
      const auto GR = fe.GradientsReferenceShapeFunctions(MatrixXd(x.col(k)));
      const MatrixXcd g = a.G[k] * GR.middleCols(0, d).transpose().template cast<cplx>();
      const MatrixXcd al = tensor(to_c(c[k]), a.X.rows());
      r.M += wk * (g.adjoint() * al * g);
      r.scale += std::abs(wk) * al.cwiseAbs().maxCoeff() * g.squaredNorm();
    } else {
      if constexpr (std::is_arithmetic_v<std::decay_t<decltype(c[k])>> || std::is_same_v<std::decay_t<decltype(c[k])>, cplx>) {
        const VectorXcd b = B.col(k).template cast<cplx>();
        r.M += wk * to_c(c[k]) * (b.conjugate() * b.transpose());
        r.scale += std::abs(wk) * std::abs(to_c(c[k])) * b.squaredNorm();
      }
    }
  }
  return r;
}
template <class S, class MF>
Res form_vector(const Entity& e, const ScalarReferenceFiniteElement<S>& fe, const MF& f, const MatrixXd& x, const VectorXd& w) {
  const At a = shape_at(e, x);
  const int n = fe.NumRefShapeFunctions();
  const auto B = fe.EvalReferenceShapeFunctions(x);
  const auto c = f(e, x);
  Res r;
  r.M = MatrixXcd::Zero(n, 1);
  for (int k = 0; k < x.cols(); ++k) {
    const VectorXcd b = B.col(k).template cast<cplx>();
    const cplx v = w(k) * a.det(k) * to_c(c[k]);
    r.M += v * b.conjugate();
    r.scale += std::abs(v) * b.cwiseAbs().maxCoeff();
  }
  return r;
}
// coefficients of the function 1
template <class S>
VectorXcd ones(const ScalarReferenceFiniteElement<S>& fe, bool cardinal) {
  VectorXcd v = VectorXcd::Zero(fe.NumRefShapeFunctions());
  v.head(cardinal ? v.size() : static_cast<Eigen::Index>(fe.RefEl().NumNodes())).setOnes();
  return v;
}
template <class S>
std::shared_ptr<const lf::uscalfe::UniformScalarFESpace<S>> lagrange_space(std::shared_ptr<const lf::mesh::Mesh> m, int p) {
  if (p == 1) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<S>>(m);
  if (p == 2) return std::make_shared<lf::uscalfe::FeSpaceLagrangeO2<S>>(m);
  return std::make_shared<lf::uscalfe::FeSpaceLagrangeO3<S>>(m);
}
// compares a computed matrix with the exact integral (res), given what the
// rule of the documented degree yields (emu)
inline bool close(const MatrixXcd& got, const Res& exact, const MatrixXcd& emu, double* ratio = nullptr) {
  if (got.rows() != exact.M.rows() || got.cols() != exact.M.cols()) return false;
  const double tol = 2e-12 * exact.scale + 10 * (emu - exact.M).cwiseAbs().maxCoeff();
  const double e = (got - exact.M).cwiseAbs().maxCoeff();
  if (ratio) *ratio = e / (tol + 1e-300);
  return e <= tol;
}

// a random coefficient of one of several types is handed to f
// f(mesh function, name, symmetric)
template <class F>
void scalar_coef(Rng& r, const Desc& d, std::shared_ptr<const lf::mesh::Mesh> m, int kind, F&& f) {
  VectorXd k = VectorXd::NullaryExpr(d.dw, [&](Eigen::Index) { return r.real(-1, 1); }) / d.diam();
  double a = r.real(-2, 2), b = r.real(-2, 2);
  auto kp = std::make_shared<const VectorXd>(k);
  auto wave = [kp, a](const VectorXd& x) { return a + std::sin(kp->dot(x)); };
  switch (kind) {
    case 0: f(MeshFunctionConstant<double>(a), "constant"); break;
    case 1: f(MeshFunctionGlobal([wave](const VectorXd& x) { return wave(x); }), "function"); break;
    case 2: {
      auto q = std::make_shared<PhysPoly>(r, r.uni(0, 2), d.P);
      f(MeshFunctionGlobal([q](const VectorXd& x) { return (*q)(x); }), "polynomial");
      break;
    }
    case 3: f(MeshFunctionConstant<cplx>(cplx(a, b)), "constant_complex"); break;
    case 4: f(MeshFunctionGlobal([wave, b](const VectorXd& x) { return cplx(wave(x), b * wave(x) + 1); }), "function_complex"); break;
    default: {
      auto sp = std::make_shared<lf::uscalfe::FeSpaceLagrangeO1<double>>(m);
      f(lf::fe::MeshFunctionFE<double, double>(sp, rand_vec<double>(r, sp->LocGlobMap().NumDofs())), "fe_function");
    }
  }
}
template <class F>
void tensor_coef(Rng& r, const Desc& d, int kind, F&& f) {
  VectorXd k = VectorXd::NullaryExpr(d.dw, [&](Eigen::Index) { return r.real(-1, 1); }) / d.diam();
  MatrixXd A = MatrixXd::NullaryExpr(d.dw, d.dw, [&](Eigen::Index, Eigen::Index) { return r.real(-1, 1); });
  const bool sym = r.coin();
  if (sym) A = (A + A.transpose()).eval();
  MatrixXd Bm = A;
  if (kind == 0 && d.dw == 2) {
    f(MeshFunctionConstant<Eigen::Matrix2d>(Eigen::Matrix2d(A)), "tensor", sym);
  } else if (kind == 0) {
    f(MeshFunctionConstant<Eigen::Matrix3d>(Eigen::Matrix3d(A)), "tensor3", sym);
  } else if (kind == 1) {
    f(MeshFunctionGlobal([Bm, k](const VectorXd& x) { return MatrixXd((1.5 + std::sin(k.dot(x))) * Bm); }), "tensor_function", sym);
  } else if (d.dw == 2) {
    f(MeshFunctionGlobal([Bm, k](const VectorXd& x) { return Eigen::Matrix2cd(cplx(1.5 + std::sin(k.dot(x)), 0.5) * Bm.cast<cplx>()); }), "tensor_complex", sym);
  } else {
    f(MeshFunctionGlobal([Bm, k](const VectorXd& x) { return Eigen::Matrix3cd(cplx(1.5 + std::sin(k.dot(x)), 0.5) * Bm.cast<cplx>()); }), "tensor3_complex", sym);
  }
}
}  // namespace ell
