#pragma once
Tol tolOf(const pwork* w);
Tol randomTol(Rng& r);
void applyTol(pwork* w, const Tol& t);
void oracleOptimal(Ctx& c, const Prob& P, const Res& R, const Tol& T, const string& tag);   // C01
void oracleCert(Ctx& c, const Prob& P, const Res& R, const Tol& T, const string& tag);      // C02
void oracleStats(Ctx& c, const Prob& P, const Res& R, const string& tag, long maxit);       // C04
extern bool g_tau2_elsewhere;   // leaves the known findings about the gap of scaled points to C01 and C04
