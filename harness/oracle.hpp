/* Integrals over contracted Cartesian Gaussians straight from their definition (Eri.tla, Oei.tla), for any field T:
 * the two-dimensional integrals are polynomials in t, and t^k stands for the Boys function F_k. The same code runs over
 * GF(p), where TLC checks its results against the specification, and over 113-bit floating point, where it is the
 * reference for the library. */
#pragma once
#include <vector>
#include <array>
template<class T> struct Poly1 { T c0, c1; };                       /* c0 + c1 t */
template<class T> using Poly = std::vector<T>;
template<class T> static Poly<T> pmul(const Poly<T> &a, const Poly<T> &b)
{
    Poly<T> r(a.size() + b.size() - 1, T(0));
    for(size_t i = 0; i < a.size(); i++) for(size_t j = 0; j < b.size(); j++) r[i+j] = r[i+j] + a[i]*b[j];
    return r;
}
template<class T> static void padd(Poly<T> &r, T f, const Poly1<T> &q, const Poly<T> &a)     /* r += f q a */
{
    if(r.size() < a.size() + 1) r.resize(a.size() + 1, T(0));
    for(size_t i = 0; i < a.size(); i++) { r[i] = r[i] + f*q.c0*a[i]; r[i+1] = r[i+1] + f*q.c1*a[i]; }
}
template<class T> static void padd0(Poly<T> &r, T f, const Poly<T> &a)
{
    if(r.size() < a.size()) r.resize(a.size(), T(0));
    for(size_t i = 0; i < a.size(); i++) r[i] = r[i] + f*a[i];
}
static inline std::vector<std::array<int,3>> carts(int l)
{
    std::vector<std::array<int,3>> r;
    for(int x = l; x >= 0; x--) for(int y = l - x; y >= 0; y--) r.push_back({x, y, l - x - y});
    return r;
}
/* tables of one dimension: I(a,b,c,d) */
template<class T> struct Tab {
    int na, nb, nc, nd; std::vector<Poly<T>> v;
    Poly<T> &at(int a, int b, int c, int d) { return v[((a*(nb+1) + b)*(nc+1) + c)*(nd+1) + d]; }
};
template<class T> static Tab<T> table(int na, int nb, int nc, int nd, Poly1<T> C00, Poly1<T> D00, Poly1<T> B10, Poly1<T> B01, Poly1<T> B00, T AB, T CD)
{
    int ma = na + nb, mc = nc + nd;
    std::vector<std::vector<Poly<T>>> G(ma + 1, std::vector<Poly<T>>(mc + 1));
    G[0][0] = Poly<T>(1, T(1));
    for(int c = 0; c <= mc; c++) for(int a = 0; a <= ma; a++) {
        if(a == 0 && c == 0) continue;
        Poly<T> r(1, T(0));
        if(a > 0) {
            padd(r, T(1), C00, G[a-1][c]);
            if(a > 1) padd(r, T(a-1), B10, G[a-2][c]);
            if(c > 0) padd(r, T(c), B00, G[a-1][c-1]);
        } else {
            padd(r, T(1), D00, G[0][c-1]);
            if(c > 1) padd(r, T(c-1), B01, G[0][c-2]);
        }
        G[a][c] = r;
    }
    Tab<T> t; t.na = na; t.nb = nb; t.nc = nc; t.nd = nd; t.v.resize((na+1)*(nb+1)*(nc+1)*(nd+1));
    /* (x-B) = (x-A) + AB */
    for(int a = 0; a <= na; a++) for(int b = 0; b <= nb; b++) for(int c = 0; c <= nc; c++) for(int d = 0; d <= nd; d++) {
        Poly<T> r(1, T(0)); T fb = T(1); long cb = 1;
        for(int k = b; k >= 0; k--) {
            T fd = T(1); long cd = 1;
            for(int m = d; m >= 0; m--) { padd0(r, T(cb)*fb*T(cd)*fd, G[a+k][c+m]); fd = fd*CD; cd = cd*m/(d - m + 1); }
            fb = fb*AB; cb = cb*k/(b - k + 1);
        }
        t.at(a, b, c, d) = r;
    }
    return t;
}
/* what a primitive quartet is made of */
template<class T> struct Quartet { T c[4][3], e[4]; T pre; std::vector<T> F; };
/* adds the integrals (or derivatives) of one primitive quartet; abs: every term with its magnitude (a bound of all intermediates),
 * the distances enlarged by the given fraction of the coordinates */
template<class T> static void eri_add(const int l[4], int der, const Quartet<T> &s, bool abs, T (*mag)(T), std::vector<T> &out, T off = T(0))
{
    T p = s.e[0] + s.e[1], q = s.e[2] + s.e[3], rho = p*q/(p + q), half = T(1)/T(2);
    Tab<T> tb[3];
    for(int x = 0; x < 3; x++) {
        T P = (s.e[0]*s.c[0][x] + s.e[1]*s.c[1][x])/p, Q = (s.e[2]*s.c[2][x] + s.e[3]*s.c[3][x])/q, PQ = P - Q;
        Poly1<T> C00 = { P - s.c[0][x], T(0) - rho/p*PQ }, D00 = { Q - s.c[2][x], rho/q*PQ };
        Poly1<T> B10 = { half/p, T(0) - half/p*(rho/p) }, B01 = { half/q, T(0) - half/q*(rho/q) }, B00 = { T(0), half/(p + q) };
        T AB = s.c[0][x] - s.c[1][x], CD = s.c[2][x] - s.c[3][x];
        if(abs) {
            for(Poly1<T> *w : { &C00, &D00, &B10, &B01, &B00 }) w->c0 = mag(w->c0), w->c1 = mag(w->c1);
            T ab = off*(mag(s.c[0][x]) + mag(s.c[1][x])), cd = off*(mag(s.c[2][x]) + mag(s.c[3][x]));
            AB = mag(AB); CD = mag(CD);
            C00.c0 = C00.c0 + ab; D00.c0 = D00.c0 + cd; C00.c1 = C00.c1 + rho/p*(ab + cd); D00.c1 = D00.c1 + rho/q*(ab + cd);
        }
        tb[x] = table<T>(l[0] + der, l[1] + der, l[2] + der, l[3] + der, C00, D00, B10, B01, B00, AB, CD);
    }
    auto ca = carts(l[0]), cb = carts(l[1]), cc = carts(l[2]), cd = carts(l[3]);
    size_t o = 0;
    for(auto &i : ca) for(auto &j : cb) for(auto &k : cc) for(auto &m : cd) {
        auto val = [&](const Poly<T> &X, const Poly<T> &Y, const Poly<T> &Z) {
            Poly<T> r = pmul(pmul(X, Y), Z); T v = T(0);
            for(size_t n = 0; n < r.size(); n++) if(n < s.F.size()) v = v + r[n]*s.F[n];
            return v*s.pre;
        };
        if(!der) { out[o] = out[o] + val(tb[0].at(i[0],j[0],k[0],m[0]), tb[1].at(i[1],j[1],k[1],m[1]), tb[2].at(i[2],j[2],k[2],m[2])); o++; continue; }
        for(int ctr = 0; ctr < 4; ctr++) for(int x = 0; x < 3; x++) {
            int n[4] = { i[x], j[x], k[x], m[x] };
            Poly<T> D(1, T(0));
            n[ctr]++; padd0(D, T(2)*s.e[ctr], tb[x].at(n[0], n[1], n[2], n[3]));
            n[ctr] -= 2; if(n[ctr] >= 0) padd0(D, abs ? T(n[ctr] + 1) : T(0) - T(n[ctr] + 1), tb[x].at(n[0], n[1], n[2], n[3]));
            Poly<T> R[3] = { tb[0].at(i[0],j[0],k[0],m[0]), tb[1].at(i[1],j[1],k[1],m[1]), tb[2].at(i[2],j[2],k[2],m[2]) };
            R[x] = D;
            out[o] = out[o] + val(R[0], R[1], R[2]); o++;
        }
    }
}
/* one-electron: kind 0 overlap, 1 kinetic energy, 2 attraction by a charge at C. pre: the prefactor without the coefficients */
template<class T> struct Pair2 { T c[2][3], e[2], C[3]; T pre; std::vector<T> F; };
template<class T> static void oei_add(int kind, const int l[2], const Pair2<T> &s, bool abs, T (*mag)(T), std::vector<T> &out, T off = T(0))
{
    T p = s.e[0] + s.e[1], half = T(1)/T(2);
    int up = kind == 1 ? 2 : 0;
    Tab<T> tb[3];
    for(int x = 0; x < 3; x++) {
        T P = (s.e[0]*s.c[0][x] + s.e[1]*s.c[1][x])/p, AB = s.c[0][x] - s.c[1][x];
        Poly1<T> C00 = { P - s.c[0][x], kind == 2 ? T(0) - (P - s.C[x]) : T(0) }, Z = { T(0), T(0) };
        Poly1<T> B10 = { half/p, kind == 2 ? T(0) - half/p : T(0) };
        if(abs) {
            for(Poly1<T> *w : { &C00, &B10 }) w->c0 = mag(w->c0), w->c1 = mag(w->c1);
            T ab = off*(mag(s.c[0][x]) + mag(s.c[1][x]));
            AB = mag(AB); C00.c0 = C00.c0 + ab;
            if(kind == 2) C00.c1 = C00.c1 + ab + off*mag(s.C[x]);
        }
        tb[x] = table<T>(l[0], l[1] + up, 0, 0, C00, Z, B10, Z, Z, AB, T(0));
    }
    auto ca = carts(l[0]), cb = carts(l[1]);
    size_t o = 0;
    T b = s.e[1], minus = abs ? T(1) : T(0) - T(1);
    for(auto &i : ca) for(auto &j : cb) {
        auto val = [&](const Poly<T> &X, const Poly<T> &Y, const Poly<T> &Z) {
            Poly<T> r = pmul(pmul(X, Y), Z); T v = T(0);
            for(size_t n = 0; n < r.size(); n++) v = v + r[n]*(kind == 2 ? (n < s.F.size() ? s.F[n] : T(0)) : (n == 0 ? T(1) : T(0)));
            return v*s.pre;
        };
        T r = T(0);
        Poly<T> X[3]; for(int x = 0; x < 3; x++) X[x] = tb[x].at(i[x], j[x], 0, 0);
        if(kind != 1) r = val(X[0], X[1], X[2]);
        else for(int x = 0; x < 3; x++) {                          /* -1/2 d^2/dx^2 on the second function */
            Poly<T> D(1, T(0)); int n = j[x];
            padd0(D, minus*T(2)*b*b, tb[x].at(i[x], n + 2, 0, 0));
            padd0(D, b*T(2*n + 1), tb[x].at(i[x], n, 0, 0));
            if(n > 1) padd0(D, minus*half*T(n)*T(n - 1), tb[x].at(i[x], n - 2, 0, 0));
            Poly<T> Y[3] = { X[0], X[1], X[2] }; Y[x] = D;
            r = r + val(Y[0], Y[1], Y[2]);
        }
        out[o] = out[o] + r; o++;
    }
}
