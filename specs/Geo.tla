-------------------------------- MODULE Geo --------------------------------
(* Fixed-point plane geometry for the other modules. Lengths are in ticks of 1e-4 mm, angles in micro-radians; sine and
   cosine are scaled by 1e6. All intermediate values stay inside TLC's 32-bit integers for lengths up to about 2e8 ticks.
   Errors: sine/cosine 2e-6, MulU one unit, Hypot max/15000 + 1. *)
EXTENDS Integers, Sequences
TwoPi == 6283185
Pi == 3141593
HalfPi == 1570796
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
Bad(v) == v >= 1999999999 \/ v <= -1999999999     \* sentinels of the drivers: not a number, infinite
SinTab == <<0, 10000, 19999, 29996, 39989, 49979, 59964, 69943, 79915, 89879, 99833, 109778, 119712, 129634, 139543, 149438,
    159318, 169182, 179030, 188859, 198669, 208460, 218230, 227978, 237703, 247404, 257081, 266731, 276356, 285952,
    295520, 305059, 314567, 324043, 333487, 342898, 352274, 361615, 370920, 380188, 389418, 398609, 407760, 416871,
    425939, 434966, 443948, 452886, 461779, 470626, 479426, 488177, 496880, 505533, 514136, 522687, 531186, 539632,
    548024, 556361, 564642, 572867, 581035, 589145, 597195, 605186, 613117, 620986, 628793, 636537, 644218, 651834,
    659385, 666870, 674288, 681639, 688921, 696135, 703279, 710353, 717356, 724287, 731146, 737931, 744643, 751280,
    757843, 764329, 770739, 777072, 783327, 789504, 795602, 801620, 807558, 813416, 819192, 824886, 830497, 836026,
    841471, 846832, 852108, 857299, 862404, 867423, 872355, 877201, 881958, 886627, 891207, 895699, 900100, 904412,
    908633, 912764, 916803, 920751, 924606, 928369, 932039, 935616, 939099, 942489, 945784, 948985, 952090, 955101,
    958016, 960835, 963558, 966185, 968715, 971148, 973485, 975723, 977865, 979908, 981854, 983701, 985450, 987100,
    988652, 990105, 991458, 992713, 993868, 994924, 995881, 996738, 997495, 998152, 998710, 999168, 999526, 999784,
    999942, 1000000, 999958>>
CosTab == <<1000000, 999950, 999800, 999550, 999200, 998750, 998201, 997551, 996802, 995953, 995004, 993956, 992809, 991562,
    990216, 988771, 987227, 985585, 983844, 982004, 980067, 978031, 975897, 973666, 971338, 968912, 966390, 963771,
    961055, 958244, 955336, 952334, 949235, 946042, 942755, 939373, 935897, 932327, 928665, 924909, 921061, 917121,
    913089, 908966, 904752, 900447, 896052, 891568, 886995, 882333, 877583, 872745, 867819, 862807, 857709, 852525,
    847255, 841901, 836463, 830941, 825336, 819648, 813878, 808028, 802096, 796084, 789992, 783822, 777573, 771246,
    764842, 758362, 751806, 745174, 738469, 731689, 724836, 717911, 710914, 703845, 696707, 689498, 682221, 674876,
    667463, 659983, 652437, 644827, 637151, 629412, 621610, 613746, 605820, 597834, 589788, 581683, 573520, 565300,
    557023, 548690, 540302, 531861, 523366, 514819, 506220, 497571, 488872, 480124, 471328, 462485, 453596, 444662,
    435682, 426660, 417595, 408487, 399340, 390152, 380925, 371660, 362358, 353019, 343646, 334238, 324796, 315322,
    305817, 296281, 286715, 277121, 267499, 257850, 248175, 238476, 228753, 219007, 209239, 199450, 189641, 179813,
    169967, 160104, 150225, 140332, 130424, 120503, 110570, 100626, 90672, 80708, 70737, 60759, 50774, 40785, 30791,
    20795, 10796, 796, -9204>>
\* b is scaled by 1e6: a * b / 1e6, rounded
MulP(a, b) == LET ah == a \div 1000 al == a % 1000 bh == b \div 1000 bl == b % 1000
              IN ah * bh + (al * bh + ah * bl + (al * bl) \div 1000 + 500) \div 1000
MulU(a, b) == LET s == (IF a < 0 THEN -1 ELSE 1) * (IF b < 0 THEN -1 ELSE 1) IN s * MulP(Abs(a), Abs(b))
\* p * t / n for p <= n without overflow (floor)
Part(p, t, n) == p * (t \div n) + (p * (t % n)) \div n
\* a * 1e6 / b, digit by digit (floor), a and b positive
RECURSIVE DivDigits(_, _, _, _)
DivDigits(acc, rem, b, k) == IF k = 0 THEN acc ELSE DivDigits(acc * 10 + (rem * 10) \div b, (rem * 10) % b, b, k - 1)
DivU(a, b) == IF a < 0 THEN -DivDigits((-a) \div b, (-a) % b, b, 6) ELSE DivDigits(a \div b, a % b, b, 6)
\* table plus second order in the remainder
SinQ(x) == LET k == (x + 5000) \div 10000 e == x - k * 10000 s == SinTab[k + 1] c == CosTab[k + 1]
           IN s + (IF e < 0 THEN -(((c \div 10) * (-e)) \div 100000) ELSE ((c \div 10) * e) \div 100000)
                - ((s \div 1000) * ((e * e) \div 2000)) \div 1000000
Norm(x) == x % TwoPi                                   \* 0 .. 2 pi
Sym(x) == LET y == Norm(x) IN IF y > Pi THEN y - TwoPi ELSE y   \* -pi .. pi
Sin(x) == LET y == Norm(x) z == IF y > Pi THEN y - Pi ELSE y w == IF z > HalfPi THEN Pi - z ELSE z
          IN IF y > Pi THEN -SinQ(Max2(w, 0)) ELSE SinQ(Max2(w, 0))
Cos(x) == Sin(x + HalfPi)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, IF n < 10000 THEN 100 ELSE IF n < 1000000 THEN 1000 ELSE 46341)
Hypot(a, b) == LET m == Max2(Abs(a), Abs(b)) s == m \div 30000 + 1 IN s * ISqrt((a \div s) * (a \div s) + (b \div s) * (b \div s))
\* distance of the point (r, beta away from a radial edge) to the edge from radius lo to hi
EdgeDist(r, beta, lo, hi) == LET al == MulU(r, Cos(beta)) pe == Abs(MulU(r, Sin(beta)))
                             IN IF al < lo THEN Hypot(lo - al, pe) ELSE IF al > hi THEN Hypot(al - hi, pe) ELSE pe
\* distance of (r, phi) to the ring sector lo..hi, centre angle c, half opening w (all of the circle if w >= pi)
SectorDist(r, phi, lo, hi, c, w) == LET d == Abs(Sym(phi - c)) rad == IF r < lo THEN lo - r ELSE IF r > hi THEN r - hi ELSE 0
                                    IN IF d <= w THEN rad ELSE EdgeDist(r, d - w, lo, hi)
BoxDist(x, y, x0, x1, y0, y1) == LET dx == IF x < x0 THEN x0 - x ELSE IF x > x1 THEN x - x1 ELSE 0
                                     dy == IF y < y0 THEN y0 - y ELSE IF y > y1 THEN y - y1 ELSE 0
                                 IN IF dx = 0 THEN dy ELSE IF dy = 0 THEN dx ELSE Hypot(dx, dy)
\* angle of the direction (x, y), -pi .. pi: an approximation good to 4 mrad, then one Newton step (errors of a few units / length)
Atan2(y, x) == IF x = 0 /\ y = 0 THEN 0 ELSE
   LET ax == Abs(x) ay == Abs(y) hi == Max2(ax, ay) t == DivU(Min2(ax, ay), hi)
       f0 == MulU(t, 785398 + MulU(273000, 1000000 - t)) f1 == IF ay > ax THEN HalfPi - f0 ELSE f0
       c == Cos(f1) s == Sin(f1) f2 == f1 + DivU(MulU(ay, c) - MulU(ax, s), Max2(1, MulU(ax, c) + MulU(ay, s)))
       f3 == IF x < 0 THEN Pi - f2 ELSE f2
   IN IF y < 0 THEN -f3 ELSE f3
\* the angle 0 .. pi/2 with cosine r / d, for 0 <= r <= d (bisection)
RECURSIVE ACosB(_, _, _, _)
ACosB(r, d, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF MulU(d, Cos(m)) >= r THEN ACosB(r, d, m, hi) ELSE ACosB(r, d, lo, m)
ACos(r, d) == ACosB(r, d, 0, HalfPi)
=============================================================================
