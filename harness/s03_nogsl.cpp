// S03 without the GSL: everything that needs it says so.
#include <cassert>
#include <cmath>
#include <memory>
#include "Vector.h"
#include "Matrix.h"
#include "Integrator.h"
#include "LinearPrediction.h"
#include "Minimizer.h"
#include "SpecialFunctions.h"
#include "mc.h"
using namespace PsimagLite;
struct F {
	typedef double RealType;
	typedef double FieldType;
	int p = 0;
	static double function(double x, void*) { return x; }
	int& params() { return p; }
	double operator()(const std::vector<double>&) const { return 0; }
	void df(std::vector<double>&, const std::vector<double>&) const { }
	size_t size() const { return 1; }
};
void mc::explore()
{
	mc::run("without the GSL", [&] {
		F f;
		mc::mustThrow([&] { Integrator<F> i(f); }, "Integrator");
		mc::mustThrow([&] { Minimizer<double, F> m(f, 10); }, "Minimizer");
		mc::mustThrow([&] { Ci(1); }, "Ci");
		mc::mustThrow([&] { LnGammaFunction(std::complex<double>(1, 2)); }, "LnGammaFunction");
		std::vector<double> y { 1, 2, 4, 8 };
		LinearPrediction<double> l(y, 1);
		mc::mustThrow([&] { l.predict2(1); }, "predict2");
		l.predict(1);
		mc::near(l(4), 16.0, 1e-9, "predict");
	});
}
