// Reference fast marching: scans for the smallest tentative value; flags runs whose outcome hangs on a tie.
#pragma once
#include "ls.h"
struct Ref {
    int W, H, N; std::vector<double> o, v; std::vector<int> st; bool delicate; std::vector<double>* vel = nullptr; std::vector<char> active; bool refused = false; int ntied;
    int nb(int n, int j) const { int x = n % (W+1), y = n / (W+1); if (j == 0) return x > 0 ? n-1 : -1; if (j == 1) return x < W ? n+1 : -1; if (j == 2) return y > 0 ? n-W-1 : -1; return y < H ? n+W+1 : -1; }
    void close(double a, double b) { if (std::fabs(a - b) < 1e-8) delicate = true; }
    Ref(unsigned W_, unsigned H_, const std::vector<double>& s) : W(W_), H(H_), N((W_+1)*(H_+1)), o(s), v(s), st(N, 0), delicate(false), ntied(0) {}
    bool opp(int a, int b) const { return (o[a] < 0 && o[b] > 0) || (o[a] > 0 && o[b] < 0); }
    int freeze() {
        int c = 0;
        for (int n = 0; n < N; n++) {
            if (o[n] == 0) { st[n] = 2; c++; continue; }
            double s = 0; bool border = false;
            for (int d = 0; d < 2; d++) {
                double best = 2;
                for (int j = 2*d; j < 2*d+2; j++) { int m = nb(n, j); if (m >= 0 && opp(n, m)) { border = true; best = std::min(best, o[n]/(o[n]-o[m])); } }
                if (best < 2) s += 1/(best*best);
            }
            if (border) { st[n] = 2; c++; v[n] = std::copysign(std::sqrt(1/s), o[n]); }
        }
        return c;
    }
    double update(int n) {
        double a = 0, b = 0, c = -1;
        for (int d = 0; d < 2; d++) {
            int pick = -1, dir = 0;
            for (int j = 2*d; j < 2*d+2; j++) {
                int m = nb(n, j);
                if (m < 0 || st[m] != 2) continue;
                if (pick >= 0) close(std::fabs(v[m]), std::fabs(v[pick]));
                if (pick < 0 || std::fabs(v[m]) < std::fabs(v[pick])) { pick = m; dir = j; }
            }
            if (pick < 0) continue;
            int q = nb(pick, dir);
            if (q >= 0 && st[q] == 2 && v[q] != v[pick]) close(std::fabs(v[q]), std::fabs(v[pick]));
            if (q >= 0 && st[q] == 2 && std::fabs(v[q]) <= std::fabs(v[pick])) { double t = (4*v[pick] - v[q])/3; a += 2.25; b -= 4.5*t; c += 2.25*t*t; }
            else { double t = v[pick]; a += 1; b -= 2*t; c += t*t; }
        }
        double D = b*b - 4*a*c;
        if (a > 0) close(D, 0);
        if (!(D > 0)) return v[n];
        return o[n] > 0 ? (-b + std::sqrt(D))/(2*a) : (-b - std::sqrt(D))/(2*a);
    }
    // velocity of an accepted node: mean of its accepted neighbours (the one closer to the contour per direction), weighted by the difference in distance
    void extend(int n) {
        double num = 0, den = 0;
        for (int d = 0; d < 2; d++) {
            int pick = -1;
            for (int j = 2*d; j < 2*d+2; j++) { int m = nb(n, j); if (m < 0 || st[m] != 2) continue; if (pick >= 0) close(std::fabs(v[m]), std::fabs(v[pick])); if (pick < 0 || std::fabs(v[m]) < std::fabs(v[pick])) pick = m; }
            if (pick >= 0) { double w = std::fabs(v[n] - v[pick]); num += w*(*vel)[pick]; den += w; }
        }
        if (den == 0) refused = true; else { if (den < 1e-6) delicate = true; (*vel)[n] = num/den; }
    }
    bool may(int n) const { return !vel || active[n]; }
    void run() {
        for (int n = 0; n < N; n++) if (st[n] == 0) { bool t = false; for (int j = 0; j < 4; j++) { int m = nb(n, j); if (m >= 0 && st[m] == 2) t = true; } if (t && may(n)) { v[n] = update(n); st[n] = 1; } }
        for (;;) {
            int best = -1;
            for (int n = 0; n < N; n++) if (st[n] == 1 && (best < 0 || std::fabs(v[n]) < std::fabs(v[best]))) best = n;
            if (best < 0) break;
            double val = std::fabs(v[best]); std::vector<int> q;
            for (int n = 0; n < N; n++) if (st[n] == 1) { if (std::fabs(v[n]) == val) q.push_back(n); else close(std::fabs(v[n]), val); }
            if (q.size() > 1) { ntied++; delicate = true; }   // which of two equal values comes first is not specified
            for (int n : q) { st[n] = 2; if (vel) extend(n); }
            for (int n : q) for (int j = 0; j < 4; j++) {
                int m = nb(n, j);
                if (m < 0 || st[m] == 2) continue;
                v[m] = update(m); if (may(m)) st[m] = 1;
                int p = nb(m, j);
                if (p >= 0 && st[p] == 1) v[p] = update(p);
            }
        }
    }
};
