// written by tools/gen_many.py
struct M1 { static constexpr int size = 1; int m0 = 0; int* at(int i) { int* p[] = { &m0 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0" }; return p[i]; }
    MEO_JSONIZATION(m0) };
struct M2 { static constexpr int size = 2; int m0 = 0, m1 = 0; int* at(int i) { int* p[] = { &m0, &m1 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1" }; return p[i]; }
    MEO_JSONIZATION(m0, m1) };
struct M3 { static constexpr int size = 2; int m0 = 0, m1 = 0; int* at(int i) { int* p[] = { &m0, &m1 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT m1) };
struct M4 { static constexpr int size = 3; int m0 = 0, m1 = 0, m2 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, m2) };
struct M5 { static constexpr int size = 3; int m0 = 0, m1 = 0, m2 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, MEO_KEY("k1") m1, m2) };
struct M6 { static constexpr int size = 4; int m0 = 0, m1 = 0, m2 = 0, m3 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_OPT MEO_KEY("k2") m2, m3) };
struct M7 { static constexpr int size = 5; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, m2, MEO_KEY("k3") m3, MEO_OPT m4) };
struct M8 { static constexpr int size = 5; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, MEO_OPT m1, m2, m3, MEO_KEY("k4") m4) };
struct M9 { static constexpr int size = 6; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, m2, MEO_OPT m3, m4, MEO_KEY("k5") m5) };
struct M10 { static constexpr int size = 7; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "m6" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, m1, MEO_KEY("k2") m2, m3, m4, MEO_OPT m5, m6) };
struct M11 { static constexpr int size = 8; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "m7" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_OPT m2, MEO_KEY("k3") m3, m4, m5, m6, MEO_OPT m7) };
struct M12 { static constexpr int size = 9; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "m8" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, m2, m3, MEO_OPT MEO_KEY("k4") m4, m5, m6, m7, m8) };
struct M13 { static constexpr int size = 9; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT MEO_KEY("k1") m1, m2, m3, m4, MEO_KEY("k5") m5, MEO_OPT m6, m7, m8) };
struct M14 { static constexpr int size = 10; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_KEY("k2") m2, MEO_OPT m3, m4, m5, MEO_KEY("k6") m6, m7, MEO_OPT m8, m9) };
struct M15 { static constexpr int size = 11; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, m1, m2, MEO_KEY("k3") m3, m4, MEO_OPT m5, m6, MEO_KEY("k7") m7, m8, m9, m10) };
struct M16 { static constexpr int size = 11; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, MEO_OPT m2, m3, MEO_KEY("k4") m4, m5, m6, MEO_OPT m7, MEO_KEY("k8") m8, m9, m10) };
struct M17 { static constexpr int size = 12; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, m2, m3, MEO_OPT m4, MEO_KEY("k5") m5, m6, m7, m8, MEO_OPT MEO_KEY("k9") m9, m10, m11) };
struct M18 { static constexpr int size = 12; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT m1, MEO_KEY("k2") m2, m3, m4, m5, MEO_OPT MEO_KEY("k6") m6, m7, m8, m9, MEO_KEY("k10") m10, MEO_OPT m11) };
struct M19 { static constexpr int size = 14; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, m2, MEO_OPT MEO_KEY("k3") m3, m4, m5, m6, MEO_KEY("k7") m7, MEO_OPT m8, m9, m10, MEO_KEY("k11") m11, m12, m13) };
struct M20 { static constexpr int size = 13; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT MEO_KEY("k0") m0, m1, m2, m3, MEO_KEY("k4") m4, MEO_OPT m5, m6, m7, MEO_KEY("k8") m8, m9, MEO_OPT m10, m11, MEO_KEY("k12") m12) };
struct M21 { static constexpr int size = 14; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, MEO_OPT m2, m3, m4, MEO_KEY("k5") m5, m6, MEO_OPT m7, m8, MEO_KEY("k9") m9, m10, m11, MEO_OPT m12, MEO_KEY("k13") m13) };
struct M22 { static constexpr int size = 15; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_KEY("k2") m2, m3, MEO_OPT m4, m5, MEO_KEY("k6") m6, m7, m8, MEO_OPT m9, MEO_KEY("k10") m10, m11, m12, m13, MEO_OPT MEO_KEY("k14") m14) };
struct M23 { static constexpr int size = 16; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT m1, m2, MEO_KEY("k3") m3, m4, m5, MEO_OPT m6, MEO_KEY("k7") m7, m8, m9, m10, MEO_OPT MEO_KEY("k11") m11, m12, m13, m14, MEO_KEY("k15") m15) };
struct M24 { static constexpr int size = 17; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "m16" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, m2, MEO_OPT m3, MEO_KEY("k4") m4, m5, m6, m7, MEO_OPT MEO_KEY("k8") m8, m9, m10, m11, MEO_KEY("k12") m12, MEO_OPT m13, m14, m15, m16) };
struct M25 { static constexpr int size = 17; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, MEO_KEY("k1") m1, m2, m3, m4, MEO_OPT MEO_KEY("k5") m5, m6, m7, m8, MEO_KEY("k9") m9, MEO_OPT m10, m11, m12, MEO_KEY("k13") m13, m14, MEO_OPT m15, m16) };
struct M26 { static constexpr int size = 18; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_OPT MEO_KEY("k2") m2, m3, m4, m5, MEO_KEY("k6") m6, MEO_OPT m7, m8, m9, MEO_KEY("k10") m10, m11, MEO_OPT m12, m13, MEO_KEY("k14") m14, m15, m16, MEO_OPT m17) };
struct M27 { static constexpr int size = 20; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "m19" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, m2, MEO_KEY("k3") m3, MEO_OPT m4, m5, m6, MEO_KEY("k7") m7, m8, MEO_OPT m9, m10, MEO_KEY("k11") m11, m12, m13, MEO_OPT m14, MEO_KEY("k15") m15, m16, m17, m18, m19) };
struct M28 { static constexpr int size = 19; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, MEO_OPT m1, m2, m3, MEO_KEY("k4") m4, m5, MEO_OPT m6, m7, MEO_KEY("k8") m8, m9, m10, MEO_OPT m11, MEO_KEY("k12") m12, m13, m14, m15, MEO_OPT MEO_KEY("k16") m16, m17, m18) };
struct M29 { static constexpr int size = 20; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, m2, MEO_OPT m3, m4, MEO_KEY("k5") m5, m6, m7, MEO_OPT m8, MEO_KEY("k9") m9, m10, m11, m12, MEO_OPT MEO_KEY("k13") m13, m14, m15, m16, MEO_KEY("k17") m17, MEO_OPT m18, m19) };
struct M30 { static constexpr int size = 21; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, m1, MEO_KEY("k2") m2, m3, m4, MEO_OPT m5, MEO_KEY("k6") m6, m7, m8, m9, MEO_OPT MEO_KEY("k10") m10, m11, m12, m13, MEO_KEY("k14") m14, MEO_OPT m15, m16, m17, MEO_KEY("k18") m18, m19, m20) };
struct M31 { static constexpr int size = 22; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_OPT m2, MEO_KEY("k3") m3, m4, m5, m6, MEO_OPT MEO_KEY("k7") m7, m8, m9, m10, MEO_KEY("k11") m11, MEO_OPT m12, m13, m14, MEO_KEY("k15") m15, m16, MEO_OPT m17, m18, MEO_KEY("k19") m19, m20, m21) };
struct M32 { static constexpr int size = 22; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, m2, m3, MEO_OPT MEO_KEY("k4") m4, m5, m6, m7, MEO_KEY("k8") m8, MEO_OPT m9, m10, m11, MEO_KEY("k12") m12, m13, MEO_OPT m14, m15, MEO_KEY("k16") m16, m17, m18, MEO_OPT m19, MEO_KEY("k20") m20, m21) };
struct M33 { static constexpr int size = 22; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT MEO_KEY("k1") m1, m2, m3, m4, MEO_KEY("k5") m5, MEO_OPT m6, m7, m8, MEO_KEY("k9") m9, m10, MEO_OPT m11, m12, MEO_KEY("k13") m13, m14, m15, MEO_OPT m16, MEO_KEY("k17") m17, m18, m19, m20, MEO_OPT MEO_KEY("k21") m21) };
struct M34 { static constexpr int size = 24; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_KEY("k2") m2, MEO_OPT m3, m4, m5, MEO_KEY("k6") m6, m7, MEO_OPT m8, m9, MEO_KEY("k10") m10, m11, m12, MEO_OPT m13, MEO_KEY("k14") m14, m15, m16, m17, MEO_OPT MEO_KEY("k18") m18, m19, m20, m21, MEO_KEY("k22") m22, m23) };
struct M35 { static constexpr int size = 24; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, m1, m2, MEO_KEY("k3") m3, m4, MEO_OPT m5, m6, MEO_KEY("k7") m7, m8, m9, MEO_OPT m10, MEO_KEY("k11") m11, m12, m13, m14, MEO_OPT MEO_KEY("k15") m15, m16, m17, m18, MEO_KEY("k19") m19, MEO_OPT m20, m21, m22, MEO_KEY("k23") m23) };
struct M36 { static constexpr int size = 25; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "m24" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, MEO_OPT m2, m3, MEO_KEY("k4") m4, m5, m6, MEO_OPT m7, MEO_KEY("k8") m8, m9, m10, m11, MEO_OPT MEO_KEY("k12") m12, m13, m14, m15, MEO_KEY("k16") m16, MEO_OPT m17, m18, m19, MEO_KEY("k20") m20, m21, MEO_OPT m22, m23, m24) };
struct M37 { static constexpr int size = 26; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21", "m22", "m23", "m24", "m25" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, m2, m3, MEO_OPT m4, MEO_KEY("k5") m5, m6, m7, m8, MEO_OPT MEO_KEY("k9") m9, m10, m11, m12, MEO_KEY("k13") m13, MEO_OPT m14, m15, m16, MEO_KEY("k17") m17, m18, MEO_OPT m19, m20, MEO_KEY("k21") m21, m22, m23, MEO_OPT m24, m25) };
struct M38 { static constexpr int size = 27; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23", "m24", "m25", "m26" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT m1, MEO_KEY("k2") m2, m3, m4, m5, MEO_OPT MEO_KEY("k6") m6, m7, m8, m9, MEO_KEY("k10") m10, MEO_OPT m11, m12, m13, MEO_KEY("k14") m14, m15, MEO_OPT m16, m17, MEO_KEY("k18") m18, m19, m20, MEO_OPT m21, MEO_KEY("k22") m22, m23, m24, m25, m26) };
struct M39 { static constexpr int size = 28; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23", "m24", "m25", "m26", "m27" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, m2, MEO_OPT MEO_KEY("k3") m3, m4, m5, m6, MEO_KEY("k7") m7, MEO_OPT m8, m9, m10, MEO_KEY("k11") m11, m12, MEO_OPT m13, m14, MEO_KEY("k15") m15, m16, m17, MEO_OPT m18, MEO_KEY("k19") m19, m20, m21, m22, MEO_OPT MEO_KEY("k23") m23, m24, m25, m26, m27) };
struct M40 { static constexpr int size = 27; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "k24", "m25", "m26" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT MEO_KEY("k0") m0, m1, m2, m3, MEO_KEY("k4") m4, MEO_OPT m5, m6, m7, MEO_KEY("k8") m8, m9, MEO_OPT m10, m11, MEO_KEY("k12") m12, m13, m14, MEO_OPT m15, MEO_KEY("k16") m16, m17, m18, m19, MEO_OPT MEO_KEY("k20") m20, m21, m22, m23, MEO_KEY("k24") m24, MEO_OPT m25, m26) };
struct M41 { static constexpr int size = 28; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21", "m22", "m23", "m24", "k25", "m26", "m27" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, MEO_OPT m2, m3, m4, MEO_KEY("k5") m5, m6, MEO_OPT m7, m8, MEO_KEY("k9") m9, m10, m11, MEO_OPT m12, MEO_KEY("k13") m13, m14, m15, m16, MEO_OPT MEO_KEY("k17") m17, m18, m19, m20, MEO_KEY("k21") m21, MEO_OPT m22, m23, m24, MEO_KEY("k25") m25, m26, MEO_OPT m27) };
struct M42 { static constexpr int size = 30; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23", "m24", "m25", "k26", "m27", "m28", "m29" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_KEY("k2") m2, m3, MEO_OPT m4, m5, MEO_KEY("k6") m6, m7, m8, MEO_OPT m9, MEO_KEY("k10") m10, m11, m12, m13, MEO_OPT MEO_KEY("k14") m14, m15, m16, m17, MEO_KEY("k18") m18, MEO_OPT m19, m20, m21, MEO_KEY("k22") m22, m23, MEO_OPT m24, m25, MEO_KEY("k26") m26, m27, m28, m29) };
struct M43 { static constexpr int size = 30; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23", "m24", "m25", "m26", "k27", "m28", "m29" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT m1, m2, MEO_KEY("k3") m3, m4, m5, MEO_OPT m6, MEO_KEY("k7") m7, m8, m9, m10, MEO_OPT MEO_KEY("k11") m11, m12, m13, m14, MEO_KEY("k15") m15, MEO_OPT m16, m17, m18, MEO_KEY("k19") m19, m20, MEO_OPT m21, m22, MEO_KEY("k23") m23, m24, m25, MEO_OPT m26, MEO_KEY("k27") m27, m28, m29) };
struct M44 { static constexpr int size = 30; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "k24", "m25", "m26", "m27", "k28", "m29" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, m2, MEO_OPT m3, MEO_KEY("k4") m4, m5, m6, m7, MEO_OPT MEO_KEY("k8") m8, m9, m10, m11, MEO_KEY("k12") m12, MEO_OPT m13, m14, m15, MEO_KEY("k16") m16, m17, MEO_OPT m18, m19, MEO_KEY("k20") m20, m21, m22, MEO_OPT m23, MEO_KEY("k24") m24, m25, m26, m27, MEO_OPT MEO_KEY("k28") m28, m29) };
struct M45 { static constexpr int size = 31; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21", "m22", "m23", "m24", "k25", "m26", "m27", "m28", "k29", "m30" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, MEO_KEY("k1") m1, m2, m3, m4, MEO_OPT MEO_KEY("k5") m5, m6, m7, m8, MEO_KEY("k9") m9, MEO_OPT m10, m11, m12, MEO_KEY("k13") m13, m14, MEO_OPT m15, m16, MEO_KEY("k17") m17, m18, m19, MEO_OPT m20, MEO_KEY("k21") m21, m22, m23, m24, MEO_OPT MEO_KEY("k25") m25, m26, m27, m28, MEO_KEY("k29") m29, m30) };
struct M46 { static constexpr int size = 32; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23", "m24", "m25", "k26", "m27", "m28", "m29", "k30", "m31" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_OPT MEO_KEY("k2") m2, m3, m4, m5, MEO_KEY("k6") m6, MEO_OPT m7, m8, m9, MEO_KEY("k10") m10, m11, MEO_OPT m12, m13, MEO_KEY("k14") m14, m15, m16, MEO_OPT m17, MEO_KEY("k18") m18, m19, m20, m21, MEO_OPT MEO_KEY("k22") m22, m23, m24, m25, MEO_KEY("k26") m26, MEO_OPT m27, m28, m29, MEO_KEY("k30") m30, m31) };
struct M47 { static constexpr int size = 33; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23", "m24", "m25", "m26", "k27", "m28", "m29", "m30", "k31", "m32" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, m2, MEO_KEY("k3") m3, MEO_OPT m4, m5, m6, MEO_KEY("k7") m7, m8, MEO_OPT m9, m10, MEO_KEY("k11") m11, m12, m13, MEO_OPT m14, MEO_KEY("k15") m15, m16, m17, m18, MEO_OPT MEO_KEY("k19") m19, m20, m21, m22, MEO_KEY("k23") m23, MEO_OPT m24, m25, m26, MEO_KEY("k27") m27, m28, MEO_OPT m29, m30, MEO_KEY("k31") m31, m32) };
struct M48 { static constexpr int size = 33; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "k24", "m25", "m26", "m27", "k28", "m29", "m30", "m31", "m32" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, MEO_OPT m1, m2, m3, MEO_KEY("k4") m4, m5, MEO_OPT m6, m7, MEO_KEY("k8") m8, m9, m10, MEO_OPT m11, MEO_KEY("k12") m12, m13, m14, m15, MEO_OPT MEO_KEY("k16") m16, m17, m18, m19, MEO_KEY("k20") m20, MEO_OPT m21, m22, m23, MEO_KEY("k24") m24, m25, MEO_OPT m26, m27, MEO_KEY("k28") m28, m29, m30, MEO_OPT m31, m32) };
struct M49 { static constexpr int size = 34; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21", "m22", "m23", "m24", "k25", "m26", "m27", "m28", "k29", "m30", "m31", "m32", "m33" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, m2, MEO_OPT m3, m4, MEO_KEY("k5") m5, m6, m7, MEO_OPT m8, MEO_KEY("k9") m9, m10, m11, m12, MEO_OPT MEO_KEY("k13") m13, m14, m15, m16, MEO_KEY("k17") m17, MEO_OPT m18, m19, m20, MEO_KEY("k21") m21, m22, MEO_OPT m23, m24, MEO_KEY("k25") m25, m26, m27, MEO_OPT m28, MEO_KEY("k29") m29, m30, m31, m32, MEO_OPT m33) };
struct M50 { static constexpr int size = 35; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23", "m24", "m25", "k26", "m27", "m28", "m29", "k30", "m31", "m32", "m33", "m34" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, m1, MEO_KEY("k2") m2, m3, m4, MEO_OPT m5, MEO_KEY("k6") m6, m7, m8, m9, MEO_OPT MEO_KEY("k10") m10, m11, m12, m13, MEO_KEY("k14") m14, MEO_OPT m15, m16, m17, MEO_KEY("k18") m18, m19, MEO_OPT m20, m21, MEO_KEY("k22") m22, m23, m24, MEO_OPT m25, MEO_KEY("k26") m26, m27, m28, m29, MEO_OPT MEO_KEY("k30") m30, m31, m32, m33, m34) };
struct M51 { static constexpr int size = 36; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23", "m24", "m25", "m26", "k27", "m28", "m29", "m30", "k31", "m32", "m33", "m34", "m35" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_OPT m2, MEO_KEY("k3") m3, m4, m5, m6, MEO_OPT MEO_KEY("k7") m7, m8, m9, m10, MEO_KEY("k11") m11, MEO_OPT m12, m13, m14, MEO_KEY("k15") m15, m16, MEO_OPT m17, m18, MEO_KEY("k19") m19, m20, m21, MEO_OPT m22, MEO_KEY("k23") m23, m24, m25, m26, MEO_OPT MEO_KEY("k27") m27, m28, m29, m30, MEO_KEY("k31") m31, MEO_OPT m32, m33, m34, m35) };
struct M52 { static constexpr int size = 36; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "k24", "m25", "m26", "m27", "k28", "m29", "m30", "m31", "k32", "m33", "m34", "m35" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, m2, m3, MEO_OPT MEO_KEY("k4") m4, m5, m6, m7, MEO_KEY("k8") m8, MEO_OPT m9, m10, m11, MEO_KEY("k12") m12, m13, MEO_OPT m14, m15, MEO_KEY("k16") m16, m17, m18, MEO_OPT m19, MEO_KEY("k20") m20, m21, m22, m23, MEO_OPT MEO_KEY("k24") m24, m25, m26, m27, MEO_KEY("k28") m28, MEO_OPT m29, m30, m31, MEO_KEY("k32") m32, m33, MEO_OPT m34, m35) };
struct M53 { static constexpr int size = 37; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21", "m22", "m23", "m24", "k25", "m26", "m27", "m28", "k29", "m30", "m31", "m32", "k33", "m34", "m35", "m36" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT MEO_KEY("k1") m1, m2, m3, m4, MEO_KEY("k5") m5, MEO_OPT m6, m7, m8, MEO_KEY("k9") m9, m10, MEO_OPT m11, m12, MEO_KEY("k13") m13, m14, m15, MEO_OPT m16, MEO_KEY("k17") m17, m18, m19, m20, MEO_OPT MEO_KEY("k21") m21, m22, m23, m24, MEO_KEY("k25") m25, MEO_OPT m26, m27, m28, MEO_KEY("k29") m29, m30, MEO_OPT m31, m32, MEO_KEY("k33") m33, m34, m35, m36) };
struct M54 { static constexpr int size = 38; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23", "m24", "m25", "k26", "m27", "m28", "m29", "k30", "m31", "m32", "m33", "k34", "m35", "m36", "m37" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_KEY("k2") m2, MEO_OPT m3, m4, m5, MEO_KEY("k6") m6, m7, MEO_OPT m8, m9, MEO_KEY("k10") m10, m11, m12, MEO_OPT m13, MEO_KEY("k14") m14, m15, m16, m17, MEO_OPT MEO_KEY("k18") m18, m19, m20, m21, MEO_KEY("k22") m22, MEO_OPT m23, m24, m25, MEO_KEY("k26") m26, m27, MEO_OPT m28, m29, MEO_KEY("k30") m30, m31, m32, MEO_OPT m33, MEO_KEY("k34") m34, m35, m36, m37) };
struct M55 { static constexpr int size = 38; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23", "m24", "m25", "m26", "k27", "m28", "m29", "m30", "k31", "m32", "m33", "m34", "k35", "m36", "m37" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT m0, m1, m2, MEO_KEY("k3") m3, m4, MEO_OPT m5, m6, MEO_KEY("k7") m7, m8, m9, MEO_OPT m10, MEO_KEY("k11") m11, m12, m13, m14, MEO_OPT MEO_KEY("k15") m15, m16, m17, m18, MEO_KEY("k19") m19, MEO_OPT m20, m21, m22, MEO_KEY("k23") m23, m24, MEO_OPT m25, m26, MEO_KEY("k27") m27, m28, m29, MEO_OPT m30, MEO_KEY("k31") m31, m32, m33, m34, MEO_OPT MEO_KEY("k35") m35, m36, m37) };
struct M56 { static constexpr int size = 38; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "k24", "m25", "m26", "m27", "k28", "m29", "m30", "m31", "k32", "m33", "m34", "m35", "k36", "m37" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, MEO_OPT m2, m3, MEO_KEY("k4") m4, m5, m6, MEO_OPT m7, MEO_KEY("k8") m8, m9, m10, m11, MEO_OPT MEO_KEY("k12") m12, m13, m14, m15, MEO_KEY("k16") m16, MEO_OPT m17, m18, m19, MEO_KEY("k20") m20, m21, MEO_OPT m22, m23, MEO_KEY("k24") m24, m25, m26, MEO_OPT m27, MEO_KEY("k28") m28, m29, m30, m31, MEO_OPT MEO_KEY("k32") m32, m33, m34, m35, MEO_KEY("k36") m36, MEO_OPT m37) };
struct M57 { static constexpr int size = 40; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21", "m22", "m23", "m24", "k25", "m26", "m27", "m28", "k29", "m30", "m31", "m32", "k33", "m34", "m35", "m36", "k37", "m38", "m39" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, m2, m3, MEO_OPT m4, MEO_KEY("k5") m5, m6, m7, m8, MEO_OPT MEO_KEY("k9") m9, m10, m11, m12, MEO_KEY("k13") m13, MEO_OPT m14, m15, m16, MEO_KEY("k17") m17, m18, MEO_OPT m19, m20, MEO_KEY("k21") m21, m22, m23, MEO_OPT m24, MEO_KEY("k25") m25, m26, m27, m28, MEO_OPT MEO_KEY("k29") m29, m30, m31, m32, MEO_KEY("k33") m33, MEO_OPT m34, m35, m36, MEO_KEY("k37") m37, m38, m39) };
struct M58 { static constexpr int size = 40; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23", "m24", "m25", "k26", "m27", "m28", "m29", "k30", "m31", "m32", "m33", "k34", "m35", "m36", "m37", "k38", "m39" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT m1, MEO_KEY("k2") m2, m3, m4, m5, MEO_OPT MEO_KEY("k6") m6, m7, m8, m9, MEO_KEY("k10") m10, MEO_OPT m11, m12, m13, MEO_KEY("k14") m14, m15, MEO_OPT m16, m17, MEO_KEY("k18") m18, m19, m20, MEO_OPT m21, MEO_KEY("k22") m22, m23, m24, m25, MEO_OPT MEO_KEY("k26") m26, m27, m28, m29, MEO_KEY("k30") m30, MEO_OPT m31, m32, m33, MEO_KEY("k34") m34, m35, MEO_OPT m36, m37, MEO_KEY("k38") m38, m39) };
struct M59 { static constexpr int size = 41; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39, &m40 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23", "m24", "m25", "m26", "k27", "m28", "m29", "m30", "k31", "m32", "m33", "m34", "k35", "m36", "m37", "m38", "k39", "m40" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, m2, MEO_OPT MEO_KEY("k3") m3, m4, m5, m6, MEO_KEY("k7") m7, MEO_OPT m8, m9, m10, MEO_KEY("k11") m11, m12, MEO_OPT m13, m14, MEO_KEY("k15") m15, m16, m17, MEO_OPT m18, MEO_KEY("k19") m19, m20, m21, m22, MEO_OPT MEO_KEY("k23") m23, m24, m25, m26, MEO_KEY("k27") m27, MEO_OPT m28, m29, m30, MEO_KEY("k31") m31, m32, MEO_OPT m33, m34, MEO_KEY("k35") m35, m36, m37, MEO_OPT m38, MEO_KEY("k39") m39, m40) };
struct M60 { static constexpr int size = 41; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39, &m40 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "k24", "m25", "m26", "m27", "k28", "m29", "m30", "m31", "k32", "m33", "m34", "m35", "k36", "m37", "m38", "m39", "m40" }; return p[i]; }
    MEO_JSONIZATION(MEO_OPT MEO_KEY("k0") m0, m1, m2, m3, MEO_KEY("k4") m4, MEO_OPT m5, m6, m7, MEO_KEY("k8") m8, m9, MEO_OPT m10, m11, MEO_KEY("k12") m12, m13, m14, MEO_OPT m15, MEO_KEY("k16") m16, m17, m18, m19, MEO_OPT MEO_KEY("k20") m20, m21, m22, m23, MEO_KEY("k24") m24, MEO_OPT m25, m26, m27, MEO_KEY("k28") m28, m29, MEO_OPT m30, m31, MEO_KEY("k32") m32, m33, m34, MEO_OPT m35, MEO_KEY("k36") m36, m37, m38, m39, MEO_OPT m40) };
struct M61 { static constexpr int size = 42; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39, &m40, &m41 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "k1", "m2", "m3", "m4", "k5", "m6", "m7", "m8", "k9", "m10", "m11", "m12", "k13", "m14", "m15", "m16", "k17", "m18", "m19", "m20", "k21", "m22", "m23", "m24", "k25", "m26", "m27", "m28", "k29", "m30", "m31", "m32", "k33", "m34", "m35", "m36", "k37", "m38", "m39", "m40", "k41" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_KEY("k1") m1, MEO_OPT m2, m3, m4, MEO_KEY("k5") m5, m6, MEO_OPT m7, m8, MEO_KEY("k9") m9, m10, m11, MEO_OPT m12, MEO_KEY("k13") m13, m14, m15, m16, MEO_OPT MEO_KEY("k17") m17, m18, m19, m20, MEO_KEY("k21") m21, MEO_OPT m22, m23, m24, MEO_KEY("k25") m25, m26, MEO_OPT m27, m28, MEO_KEY("k29") m29, m30, m31, MEO_OPT m32, MEO_KEY("k33") m33, m34, m35, m36, MEO_OPT MEO_KEY("k37") m37, m38, m39, m40, MEO_KEY("k41") m41) };
struct M62 { static constexpr int size = 43; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39, &m40, &m41, &m42 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "k2", "m3", "m4", "m5", "k6", "m7", "m8", "m9", "k10", "m11", "m12", "m13", "k14", "m15", "m16", "m17", "k18", "m19", "m20", "m21", "k22", "m23", "m24", "m25", "k26", "m27", "m28", "m29", "k30", "m31", "m32", "m33", "k34", "m35", "m36", "m37", "k38", "m39", "m40", "m41", "k42" }; return p[i]; }
    MEO_JSONIZATION(m0, m1, MEO_KEY("k2") m2, m3, MEO_OPT m4, m5, MEO_KEY("k6") m6, m7, m8, MEO_OPT m9, MEO_KEY("k10") m10, m11, m12, m13, MEO_OPT MEO_KEY("k14") m14, m15, m16, m17, MEO_KEY("k18") m18, MEO_OPT m19, m20, m21, MEO_KEY("k22") m22, m23, MEO_OPT m24, m25, MEO_KEY("k26") m26, m27, m28, MEO_OPT m29, MEO_KEY("k30") m30, m31, m32, m33, MEO_OPT MEO_KEY("k34") m34, m35, m36, m37, MEO_KEY("k38") m38, MEO_OPT m39, m40, m41, MEO_KEY("k42") m42) };
struct M63 { static constexpr int size = 44; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39, &m40, &m41, &m42, &m43 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "m0", "m1", "m2", "k3", "m4", "m5", "m6", "k7", "m8", "m9", "m10", "k11", "m12", "m13", "m14", "k15", "m16", "m17", "m18", "k19", "m20", "m21", "m22", "k23", "m24", "m25", "m26", "k27", "m28", "m29", "m30", "k31", "m32", "m33", "m34", "k35", "m36", "m37", "m38", "k39", "m40", "m41", "m42", "m43" }; return p[i]; }
    MEO_JSONIZATION(m0, MEO_OPT m1, m2, MEO_KEY("k3") m3, m4, m5, MEO_OPT m6, MEO_KEY("k7") m7, m8, m9, m10, MEO_OPT MEO_KEY("k11") m11, m12, m13, m14, MEO_KEY("k15") m15, MEO_OPT m16, m17, m18, MEO_KEY("k19") m19, m20, MEO_OPT m21, m22, MEO_KEY("k23") m23, m24, m25, MEO_OPT m26, MEO_KEY("k27") m27, m28, m29, m30, MEO_OPT MEO_KEY("k31") m31, m32, m33, m34, MEO_KEY("k35") m35, MEO_OPT m36, m37, m38, MEO_KEY("k39") m39, m40, MEO_OPT m41, m42, m43) };
struct M64 { static constexpr int size = 44; int m0 = 0, m1 = 0, m2 = 0, m3 = 0, m4 = 0, m5 = 0, m6 = 0, m7 = 0, m8 = 0, m9 = 0, m10 = 0, m11 = 0, m12 = 0, m13 = 0, m14 = 0, m15 = 0, m16 = 0, m17 = 0, m18 = 0, m19 = 0, m20 = 0, m21 = 0, m22 = 0, m23 = 0, m24 = 0, m25 = 0, m26 = 0, m27 = 0, m28 = 0, m29 = 0, m30 = 0, m31 = 0, m32 = 0, m33 = 0, m34 = 0, m35 = 0, m36 = 0, m37 = 0, m38 = 0, m39 = 0, m40 = 0, m41 = 0, m42 = 0, m43 = 0; int* at(int i) { int* p[] = { &m0, &m1, &m2, &m3, &m4, &m5, &m6, &m7, &m8, &m9, &m10, &m11, &m12, &m13, &m14, &m15, &m16, &m17, &m18, &m19, &m20, &m21, &m22, &m23, &m24, &m25, &m26, &m27, &m28, &m29, &m30, &m31, &m32, &m33, &m34, &m35, &m36, &m37, &m38, &m39, &m40, &m41, &m42, &m43 }; return p[i]; } static bool opt(int i) { static const bool p[] = { 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1 }; return p[i]; } static std::string key(int i) { static const char* p[] = { "k0", "m1", "m2", "m3", "k4", "m5", "m6", "m7", "k8", "m9", "m10", "m11", "k12", "m13", "m14", "m15", "k16", "m17", "m18", "m19", "k20", "m21", "m22", "m23", "k24", "m25", "m26", "m27", "k28", "m29", "m30", "m31", "k32", "m33", "m34", "m35", "k36", "m37", "m38", "m39", "k40", "m41", "m42", "m43" }; return p[i]; }
    MEO_JSONIZATION(MEO_KEY("k0") m0, m1, m2, MEO_OPT m3, MEO_KEY("k4") m4, m5, m6, m7, MEO_OPT MEO_KEY("k8") m8, m9, m10, m11, MEO_KEY("k12") m12, MEO_OPT m13, m14, m15, MEO_KEY("k16") m16, m17, MEO_OPT m18, m19, MEO_KEY("k20") m20, m21, m22, MEO_OPT m23, MEO_KEY("k24") m24, m25, m26, m27, MEO_OPT MEO_KEY("k28") m28, m29, m30, m31, MEO_KEY("k32") m32, MEO_OPT m33, m34, m35, MEO_KEY("k36") m36, m37, MEO_OPT m38, m39, MEO_KEY("k40") m40, m41, m42, MEO_OPT m43) };
#define ALL_M(f) f(1) f(2) f(3) f(4) f(5) f(6) f(7) f(8) f(9) f(10) f(11) f(12) f(13) f(14) f(15) f(16) f(17) f(18) f(19) f(20) f(21) f(22) f(23) f(24) f(25) f(26) f(27) f(28) f(29) f(30) f(31) f(32) f(33) f(34) f(35) f(36) f(37) f(38) f(39) f(40) f(41) f(42) f(43) f(44) f(45) f(46) f(47) f(48) f(49) f(50) f(51) f(52) f(53) f(54) f(55) f(56) f(57) f(58) f(59) f(60) f(61) f(62) f(63) f(64)
