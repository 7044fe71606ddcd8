#pragma once
#include "dense.h"
#include "CrsMatrix.h"
using model::D;
typedef PsimagLite::String String;
template <typename T> PsimagLite::Matrix<T> toPsi(const D<T>& m)
{
	PsimagLite::Matrix<T> x(m.r, m.c);
	for (int i = 0; i < m.r; ++i)
		for (int j = 0; j < m.c; ++j)
			x(i, j) = m(i, j);
	return x;
}
template <typename T> D<T> fromPsi(const PsimagLite::Matrix<T>& x)
{
	D<T> m(x.rows(), x.cols());
	for (int i = 0; i < m.r; ++i)
		for (int j = 0; j < m.c; ++j)
			m(i, j) = x(i, j);
	return m;
}
template <typename T> void structOk(const PsimagLite::CrsMatrix<T>& x, const std::string& what)
{
	int nz = x.nonZeros();
	mc::check(x.rows() == 0 || x.getRowPtr(0) == 0, what + ": first row pointer is not 0");
	for (int i = 0; i < (int)x.rows(); ++i) {
		mc::check(x.getRowPtr(i) <= x.getRowPtr(i + 1), what + ": row pointers not monotone");
		std::vector<int> seen(x.cols(), 0);
		for (int k = x.getRowPtr(i); k < x.getRowPtr(i + 1); ++k) {
			mc::check(k < nz, what + ": row pointer beyond the entries");
			mc::check(x.getCol(k) >= 0 && x.getCol(k) < (int)x.cols(), what + ": column out of range");
			mc::check(!seen[x.getCol(k)]++, what + ": column twice in a row");
		}
	}
	if (x.rows())
		mc::check(x.getRowPtr(x.rows()) == nz, what + ": last row pointer is not the number of entries");
}
// value of a CRS matrix through its element accessors (entries of one row summed)
template <typename T> D<T> fromCrs(const PsimagLite::CrsMatrix<T>& x)
{
	D<T> m(x.rows(), x.cols());
	for (int i = 0; i < m.r; ++i)
		for (int k = x.getRowPtr(i); k < x.getRowPtr(i + 1); ++k)
			m(i, x.getCol(k)) += x.getValue(k);
	return m;
}
// independent construction through push
template <typename T>
PsimagLite::CrsMatrix<T> toCrs(const D<T>& m, bool keepZeros = false, bool reverseCols = false)
{
	PsimagLite::CrsMatrix<T> x(m.r, m.c);
	int n = 0;
	for (int i = 0; i < m.r; ++i) {
		x.setRow(i, n);
		for (int jj = 0; jj < m.c; ++jj) {
			int j = reverseCols ? m.c - 1 - jj : jj;
			if (m(i, j) == T(0) && !keepZeros)
				continue;
			x.pushCol(j);
			x.pushValue(m(i, j));
			++n;
		}
	}
	x.setRow(m.r, n);
	return x;
}
template <typename T> void sameCrs(const PsimagLite::CrsMatrix<T>& x, const D<T>& want, const std::string& what, double tol = 0)
{
	structOk(x, what);
	model::same(fromCrs(x), want, what, tol);
}
