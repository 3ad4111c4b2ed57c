#ifndef SX_TERMS_H
#define SX_TERMS_H
#include "common.h"
// Shape terms with symbolic, documented-valid parameters.  Widths are 0 (where a vertical edge is legal) or >= 1/8.
static const char* const shapeNames[] = {"Triangle", "Trapezoid", "Ramp", "Rectangle", "Binary", "Concave", "SShape", "ZShape", "PiShape", "Sigmoid", "SigmoidDifference", "SigmoidProduct",
    "Bell", "Cosine", "Gaussian", "GaussianProduct", "Spike"};
enum { TRI, TRA, RAMP, RECT, BIN, CONC, SSH, ZSH, PISH, SIG, SIGD, SIGP, BELL, COSI, GAUS, GAUP, SPIK, NSHAPES };
struct Shape {
    int kind;
    scalar p[5];
    int n;
    scalar h;
};
static const scalar W = 0.125;
static inline bool wide(scalar a, scalar b) { return (a == b) | (b >= a + W); }
// vertical: whether coincident vertices are allowed
static inline Shape symShape(int kind, const char* pre, scalar lo, scalar hi, bool vertical, bool height = true, bool wild = false) {
    // wild: everything the formulas allow (crossing shoulders and means, slopes of any sign, finite directions, heights above 1)
    Shape s; s.kind = kind; s.n = 2; s.h = 1.0;
    char nm[32];
#define P(i, l, h_) (std::snprintf(nm, sizeof nm, "%s%c", pre, 'a' + (i)), s.p[i] = sx_real(nm, l, h_))
    switch (kind) {
        case TRI: s.n = 3; P(0, lo, hi); P(1, lo, hi); P(2, lo, hi); sx_assume((s.p[0] <= s.p[1]) & (s.p[1] <= s.p[2]) & (vertical ? wide(s.p[0], s.p[1]) & wide(s.p[1], s.p[2]) : (s.p[1] >= s.p[0] + W) & (s.p[2] >= s.p[1] + W))); break;
        case TRA: s.n = 4; for (int i = 0; i < 4; ++i) P(i, lo, hi);
            sx_assume((s.p[0] <= s.p[1]) & (s.p[1] <= s.p[2]) & (s.p[2] <= s.p[3]) & (vertical ? wide(s.p[0], s.p[1]) & wide(s.p[1], s.p[2]) & wide(s.p[2], s.p[3]) : (s.p[1] >= s.p[0] + W) & (s.p[2] >= s.p[1] + W) & (s.p[3] >= s.p[2] + W))); break;
        case RAMP: case CONC: P(0, lo, hi); P(1, lo, hi); sx_assume((s.p[1] >= s.p[0] + W) | (s.p[0] >= s.p[1] + W)); break;
        case RECT: P(0, lo, hi); P(1, lo, hi); sx_assume(s.p[1] >= s.p[0] + W); break;
        case BIN: P(0, lo, hi); if (wild) { P(1, lo, hi); sx_assume((s.p[1] >= s.p[0] + W) | (s.p[1] <= s.p[0] - W)); } else s.p[1] = sx_choice("dir", 2) ? fl::inf : -fl::inf; break;
        case SSH: case ZSH: P(0, lo, hi); P(1, lo, hi); sx_assume(s.p[1] >= s.p[0] + W); break;
        case PISH: s.n = 4; for (int i = 0; i < 4; ++i) P(i, lo, hi); sx_assume((s.p[1] >= s.p[0] + W) & (wild | (s.p[2] >= s.p[1])) & (s.p[3] >= s.p[2] + W)); break;
        case SIG: P(0, lo, hi); P(1, -8, 8); sx_assume(std::fabs(s.p[1]) >= W); break;
        case SIGD: case SIGP: s.n = 4; P(0, lo, hi); P(1, wild ? -8 : W, 8); P(2, (kind == SIGD && !wild ? W : -8), (kind == SIGD || wild ? 8 : -W)); P(3, lo, hi); sx_assume(wild | (s.p[3] >= s.p[0])); break;
        case BELL: s.n = 3; P(0, lo, hi); P(1, W, 8); P(2, W, 8); break;
        case COSI: case GAUS: case SPIK: P(0, lo, hi); P(1, W, 8); break;
        case GAUP: s.n = 4; P(0, lo, hi); P(1, W, 8); P(2, lo, hi); P(3, W, 8); sx_assume(wild | (s.p[0] <= s.p[2])); break;
    }
#undef P
    if (height) { std::snprintf(nm, sizeof nm, "%sh", pre); s.h = sx_real(nm, W, wild ? 4.0 : 1.0); }
    return s;
}
// how: 0 constructor, 1 factory + setters
static inline fl::Term* build(const Shape& s, const S& name, int how) {
    using namespace fl;
    const scalar *p = s.p, h = s.h;
    if (how == 0) switch (s.kind) {
        case TRI: return new Triangle(name, p[0], p[1], p[2], h);
        case TRA: return new Trapezoid(name, p[0], p[1], p[2], p[3], h);
        case RAMP: return new Ramp(name, p[0], p[1], h);
        case RECT: return new Rectangle(name, p[0], p[1], h);
        case BIN: return new Binary(name, p[0], p[1], h);
        case CONC: return new Concave(name, p[0], p[1], h);
        case SSH: return new SShape(name, p[0], p[1], h);
        case ZSH: return new ZShape(name, p[0], p[1], h);
        case PISH: return new PiShape(name, p[0], p[1], p[2], p[3], h);
        case SIG: return new Sigmoid(name, p[0], p[1], h);
        case SIGD: return new SigmoidDifference(name, p[0], p[1], p[2], p[3], h);
        case SIGP: return new SigmoidProduct(name, p[0], p[1], p[2], p[3], h);
        case BELL: return new Bell(name, p[0], p[1], p[2], h);
        case COSI: return new Cosine(name, p[0], p[1], h);
        case GAUS: return new Gaussian(name, p[0], p[1], h);
        case GAUP: return new GaussianProduct(name, p[0], p[1], p[2], p[3], h);
        case SPIK: return new Spike(name, p[0], p[1], h);
    }
    Term* t = FactoryManager::instance()->term()->constructObject(shapeNames[s.kind]);
    t->setName(name);
    switch (s.kind) {
        case TRI: { Triangle* k = dynamic_cast<Triangle*>(t); k->setVertexC(p[2]); k->setVertexA(p[0]); k->setVertexB(p[1]); break; }
        case TRA: { Trapezoid* k = dynamic_cast<Trapezoid*>(t); k->setVertexD(p[3]); k->setVertexC(p[2]); k->setVertexA(p[0]); k->setVertexB(p[1]); break; }
        case RAMP: { Ramp* k = dynamic_cast<Ramp*>(t); k->setEnd(p[1]); k->setStart(p[0]); break; }
        case RECT: { Rectangle* k = dynamic_cast<Rectangle*>(t); k->setEnd(p[1]); k->setStart(p[0]); break; }
        case BIN: { Binary* k = dynamic_cast<Binary*>(t); k->setDirection(p[1]); k->setStart(p[0]); break; }
        case CONC: { Concave* k = dynamic_cast<Concave*>(t); k->setEnd(p[1]); k->setInflection(p[0]); break; }
        case SSH: { SShape* k = dynamic_cast<SShape*>(t); k->setEnd(p[1]); k->setStart(p[0]); break; }
        case ZSH: { ZShape* k = dynamic_cast<ZShape*>(t); k->setEnd(p[1]); k->setStart(p[0]); break; }
        case PISH: { PiShape* k = dynamic_cast<PiShape*>(t); k->setBottomLeft(p[0]); k->setTopLeft(p[1]); k->setTopRight(p[2]); k->setBottomRight(p[3]); break; }
        case SIG: { Sigmoid* k = dynamic_cast<Sigmoid*>(t); k->setSlope(p[1]); k->setInflection(p[0]); break; }
        case SIGD: { SigmoidDifference* k = dynamic_cast<SigmoidDifference*>(t); k->setLeft(p[0]); k->setRising(p[1]); k->setFalling(p[2]); k->setRight(p[3]); break; }
        case SIGP: { SigmoidProduct* k = dynamic_cast<SigmoidProduct*>(t); k->setLeft(p[0]); k->setRising(p[1]); k->setFalling(p[2]); k->setRight(p[3]); break; }
        case BELL: { Bell* k = dynamic_cast<Bell*>(t); k->setCenter(p[0]); k->setWidth(p[1]); k->setSlope(p[2]); break; }
        case COSI: { Cosine* k = dynamic_cast<Cosine*>(t); k->setCenter(p[0]); k->setWidth(p[1]); break; }
        case GAUS: { Gaussian* k = dynamic_cast<Gaussian*>(t); k->setMean(p[0]); k->setStandardDeviation(p[1]); break; }
        case GAUP: { GaussianProduct* k = dynamic_cast<GaussianProduct*>(t); k->setMeanA(p[0]); k->setStandardDeviationA(p[1]); k->setMeanB(p[2]); k->setStandardDeviationB(p[3]); break; }
        case SPIK: { Spike* k = dynamic_cast<Spike*>(t); k->setCenter(p[0]); k->setWidth(p[1]); break; }
    }
    t->setHeight(h);
    return t;
}
// parameters of a term as its getters tell; false if it is of another class
static inline bool read(const fl::Term* t, int kind, scalar* p) {
    using namespace fl;
    if (!t || t->className() != shapeNames[kind]) return false;
    switch (kind) {
        case TRI: { const Triangle* k = dynamic_cast<const Triangle*>(t); p[2] = k->getVertexC(); p[0] = k->getVertexA(); p[1] = k->getVertexB(); break; }
        case TRA: { const Trapezoid* k = dynamic_cast<const Trapezoid*>(t); p[3] = k->getVertexD(); p[2] = k->getVertexC(); p[0] = k->getVertexA(); p[1] = k->getVertexB(); break; }
        case RAMP: { const Ramp* k = dynamic_cast<const Ramp*>(t); p[1] = k->getEnd(); p[0] = k->getStart(); break; }
        case RECT: { const Rectangle* k = dynamic_cast<const Rectangle*>(t); p[1] = k->getEnd(); p[0] = k->getStart(); break; }
        case BIN: { const Binary* k = dynamic_cast<const Binary*>(t); p[1] = k->getDirection(); p[0] = k->getStart(); break; }
        case CONC: { const Concave* k = dynamic_cast<const Concave*>(t); p[1] = k->getEnd(); p[0] = k->getInflection(); break; }
        case SSH: { const SShape* k = dynamic_cast<const SShape*>(t); p[1] = k->getEnd(); p[0] = k->getStart(); break; }
        case ZSH: { const ZShape* k = dynamic_cast<const ZShape*>(t); p[1] = k->getEnd(); p[0] = k->getStart(); break; }
        case PISH: { const PiShape* k = dynamic_cast<const PiShape*>(t); p[0] = k->getBottomLeft(); p[1] = k->getTopLeft(); p[2] = k->getTopRight(); p[3] = k->getBottomRight(); break; }
        case SIG: { const Sigmoid* k = dynamic_cast<const Sigmoid*>(t); p[1] = k->getSlope(); p[0] = k->getInflection(); break; }
        case SIGD: { const SigmoidDifference* k = dynamic_cast<const SigmoidDifference*>(t); p[0] = k->getLeft(); p[1] = k->getRising(); p[2] = k->getFalling(); p[3] = k->getRight(); break; }
        case SIGP: { const SigmoidProduct* k = dynamic_cast<const SigmoidProduct*>(t); p[0] = k->getLeft(); p[1] = k->getRising(); p[2] = k->getFalling(); p[3] = k->getRight(); break; }
        case BELL: { const Bell* k = dynamic_cast<const Bell*>(t); p[0] = k->getCenter(); p[1] = k->getWidth(); p[2] = k->getSlope(); break; }
        case COSI: { const Cosine* k = dynamic_cast<const Cosine*>(t); p[0] = k->getCenter(); p[1] = k->getWidth(); break; }
        case GAUS: { const Gaussian* k = dynamic_cast<const Gaussian*>(t); p[0] = k->getMean(); p[1] = k->getStandardDeviation(); break; }
        case GAUP: { const GaussianProduct* k = dynamic_cast<const GaussianProduct*>(t); p[0] = k->getMeanA(); p[1] = k->getStandardDeviationA(); p[2] = k->getMeanB(); p[3] = k->getStandardDeviationB(); break; }
        case SPIK: { const Spike* k = dynamic_cast<const Spike*>(t); p[0] = k->getCenter(); p[1] = k->getWidth(); break; }
    }
    return true;
}
// keep x off the library's comparison tolerance around the breakpoints (or exactly on them)
static inline void fenceShape(const Shape& s, scalar x) {
    if (s.kind == TRI || s.kind == TRA || s.kind == RECT || s.kind == GAUP) for (int i = 0; i < s.n; ++i) if (s.kind != GAUP || i % 2 == 0) crisp(x, s.p[i]);
    if (s.kind == BIN) crisp(x, s.p[0]);
    if (s.kind == COSI) { sx_assume(std::fabs(x - (s.p[0] - 0.5 * s.p[1])) > 4e-6); sx_assume(std::fabs(x - (s.p[0] + 0.5 * s.p[1])) > 4e-6); }
}
static inline scalar piece2(scalar x, scalar s, scalar e) { // smooth step from s to e
    scalar t = (x - s) / (e - s);
    if (t <= 0) return 0.0;
    if (t >= 1) return 1.0;
    if (t <= 0.5) return 2.0 * t * t;
    return 1.0 - 2.0 * (1.0 - t) * (1.0 - t);
}
// documented membership of the piecewise shapes (independent formulation)
static inline scalar refPiecewise(const Shape& s, scalar x) {
    const scalar* p = s.p;
    switch (s.kind) {
        case TRI: if (x < p[0] || x > p[2]) return 0.0; if (x == p[1]) return s.h; return x < p[1] ? s.h * ((x - p[0]) / (p[1] - p[0])) : s.h * ((p[2] - x) / (p[2] - p[1]));
        case TRA: if (x < p[0] || x > p[3]) return 0.0; if (x >= p[1] && x <= p[2]) return s.h; return x < p[1] ? s.h * ((x - p[0]) / (p[1] - p[0])) : s.h * ((p[3] - x) / (p[3] - p[2]));
        case RAMP: { scalar t = (x - p[0]) / (p[1] - p[0]); return s.h * (t < 0 ? 0.0 : t > 1 ? 1.0 : t); }
        case RECT: return x >= p[0] && x <= p[1] ? s.h : 0.0;
        case BIN: return p[1] > p[0] ? (x >= p[0] ? s.h : 0.0) : (x <= p[0] ? s.h : 0.0);
        case CONC: if (p[0] <= p[1]) return x < p[1] ? s.h * (p[1] - p[0]) / ((p[1] - p[0]) + (p[1] - x)) : s.h; else return x > p[1] ? s.h * (p[0] - p[1]) / ((p[0] - p[1]) + (x - p[1])) : s.h;
        case SSH: return s.h * piece2(x, p[0], p[1]);
        case ZSH: return s.h * (1.0 - piece2(x, p[0], p[1]));
        default: return s.h * piece2(x, p[0], p[1]) * (1.0 - piece2(x, p[2], p[3]));
    }
}
#endif
