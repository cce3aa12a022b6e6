// written by tools/gen_c33.py
enum { NPROG = 436 };
static int r0(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(c < 0)) goto A1_0; T = T * 31 + 2; if (!(p(3, b))) goto A3_0; ; T = T * 31 + 4; if (!(p(5, a))) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; goto E3; A3_0:; E3:; if (!((b <= 0) && (b == 0))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; goto E1; A1_0:; E1:; T = T * 31 + 8; return 0; }
static int r1(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(a < 1)) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if (!(b <= 1)) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; ; T = T * 31 + 5; if (!((v2 < c) || (a < -1))) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!((b != 0) || (b != 1))) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_0:; E1:; T = T * 31 + 10; return 0; }
static int r2(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!((!(c)) || (c <= 0))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if (!((p(4, v2)) && (b))) goto A3_0; T = T * 31 + 5; goto E3; A3_0:; if (!(v2 >= 0)) goto A3_1; T = T * 31 + 6; goto E3; A3_1:; ; ; T = T * 31 + 7; if (!(a < a)) goto J5; T = T * 31 + 8; { *err = 1; return 0; } J5:; T = T * 31 + 9; goto E3; A3_2:; E3:; if (!(p(10, v2))) goto J6; T = T * 31 + 11; { *err = 1; return 0; } J6:; goto E1; A1_0:; E1:; T = T * 31 + 12; return 0; }
static int r3(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(b >= -1)) goto A1_0; T = T * 31 + 2; if ((a == -1)) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!(a)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; goto E3; A3_0:; E3:; if (!(a < a)) goto J6; T = T * 31 + 7; return 8; J6:; goto E1; A1_0:; E1:; T = T * 31 + 9; return 0; }
static int r4(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(!((a) || (a != 0)))) goto A1_0; T = T * 31 + 2; if (((a) || (a))) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!(v4 == 1)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; goto E3; A3_0:; ; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!(a)) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_0:; E1:; T = T * 31 + 10; return 0; }
static int r5(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if (!(b < a)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (a & 3))) goto L3; w3++; T = T * 31 + 3; goto N3; L3:; if (!(a < b)) goto J5; T = T * 31 + 4; return 5; J5:; goto E1; A1_0:; E1:; T = T * 31 + 6; return 0; }
static int r6(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if (!(p(2, a))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(!(a < b))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto N3; L3:; if (!(a <= -1)) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_0:; E1:; T = T * 31 + 10; return 0; }
static int r7(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; if (!(p(2, b))) goto A1_0; ; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < 3)) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!((b) || (a))) goto J5; T = T * 31 + 6; goto N3; J5:; T = T * 31 + 7; N3: i3 = q(4, i3); goto C3; L3:; if (!(b > 1)) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_0:; E1:; T = T * 31 + 10; return 0; }
static int r8(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; if (!(!(b != 0))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (i3 > 1) goto L3; T = T * 31 + 4; if (!(!(i3 < a))) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; N3: i3++; goto C3; L3:; if (!(p(7, v2))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; goto E1; A1_0:; E1:; T = T * 31 + 11; return 0; }
static int r9(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; if (!((c != -1) && (b < c))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 7, 0, 1, 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; if (!(!(e3))) goto J5; T = T * 31 + 5; goto L3; J5:; N3: n3++; goto C3; L3:; if (!(a < c)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto E1; A1_0:; E1:; T = T * 31 + 8; return 0; }
static int r10(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; if (!(((c != 7) && (b < a)) && (b < a))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = p(3, c); if (s3 == 0) goto S3_0; if (s3 == -7) goto S3_1; goto D3; S3_0:; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(b < b)) goto J5; T = T * 31 + 5; return 6; J5:; goto B3; S3_1:; T = T * 31 + 7; goto B3; D3:; T = T * 31 + 8; ; B3:; if (!(c > 0)) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; T = T * 31 + 10; goto E1; A1_0:; E1:; T = T * 31 + 11; return 0; }
static int r11(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; if (!((!(a)) && (!(b >= -1)))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (c & 7); if (s3 == 128) goto S3_0; if (s3 == 1000000) goto S3_0; if (s3 == 5) goto S3_0; if (s3 == 97) goto S3_1; if (s3 == 1) goto S3_2; if (s3 == 2) goto S3_3; goto B3; S3_0:; T = T * 31 + 4; if (!((a != 2) || (b >= -1))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto B3; S3_1:; T = T * 31 + 8; goto B3; S3_2:; T = T * 31 + 9; goto B3; S3_3:; T = T * 31 + 10; goto B3; B3:; if (!(b > 1)) goto J6; T = T * 31 + 11; return 12; J6:; goto E1; A1_0:; E1:; T = T * 31 + 13; return 0; }
static int r12(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(b >= 1)) goto A1_0; ; T = T * 31 + 2; ; ; T = T * 31 + 3; if (!(a == 7)) goto J5; T = T * 31 + 4; return 5; J5:; ; if (!(a < 1)) goto J6; T = T * 31 + 6; return 7; J6:; goto E1; A1_0:; E1:; T = T * 31 + 8; return 0; }
static int r13(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!((a < c) && (b < c))) goto A1_0; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; if (!(p(5, v4))) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; V3:; if (ex) { T = T * 31 + 9; } if (!(!(b >= 7))) goto J6; T = T * 31 + 10; return 11; J6:; T = T * 31 + 12; goto E1; A1_0:; E1:; T = T * 31 + 13; return 0; }
static int r14(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!((c != 1) || (a >= 1))) goto A1_0; ; T = T * 31 + 2; if (!((!(b)) && (!(a < 2)))) goto A3_0; v4 = p(3, a); T = T * 31 + 4; goto E3; A3_0:; E3:; if (!(p(5, b))) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; goto E1; A1_0:; ; T = T * 31 + 8; goto E1; A1_1:; E1:; T = T * 31 + 9; return 0; }
static int r15(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!((p(2, b)) || ((a) && (c != 1)))) goto A1_0; T = T * 31 + 3; goto E1; A1_0:; ; v2 = p(4, a); T = T * 31 + 5; if (!(c != 7)) goto A3_0; v4 = p(6, a); T = T * 31 + 7; if (!(b > -1)) goto J5; T = T * 31 + 8; { *err = 1; return 0; } J5:; goto E3; A3_0:; ; T = T * 31 + 9; goto E3; A3_1:; E3:; if (!(c < v2)) goto J6; T = T * 31 + 10; return 11; J6:; T = T * 31 + 12; goto E1; A1_1:; E1:; T = T * 31 + 13; return 0; }
static int r16(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(!(b >= 7))) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; if (!(b < c)) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; if (!(p(5, b))) goto A3_1; T = T * 31 + 6; goto E3; A3_1:; ; ; T = T * 31 + 7; T = T * 31 + 8; goto E3; A3_2:; E3:; if (!(a >= 7)) goto J5; T = T * 31 + 9; return 10; J5:; T = T * 31 + 11; goto E1; A1_1:; E1:; T = T * 31 + 12; return 0; }
static int r17(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!((b) || ((c) || (a)))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if ((c < 7)) goto A3_0; ; T = T * 31 + 4; if (!(b != 1)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; goto E3; A3_0:; E3:; if (!(v2)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto E1; A1_0:; ; T = T * 31 + 8; goto E1; A1_1:; E1:; T = T * 31 + 9; return 0; }
static int r18(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(c <= 1)) goto A1_0; T = T * 31 + 2; if ((c < c)) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; ; ; T = T * 31 + 4; if (!(a < b)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; goto E3; A3_1:; E3:; if (!(b < a)) goto J6; T = T * 31 + 6; return 7; J6:; goto E1; A1_0:; ; T = T * 31 + 8; goto E1; A1_1:; E1:; T = T * 31 + 9; return 0; }
static int r19(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if (!(b < 7)) goto A1_0; ; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (a & 3))) goto L3; w3++; T = T * 31 + 3; if (!(a != 2)) goto J5; T = T * 31 + 4; goto N3; J5:; goto N3; L3:; if (!(a)) goto J6; T = T * 31 + 5; { *err = 1; return 0; } J6:; goto E1; A1_0:; ; T = T * 31 + 6; goto E1; A1_1:; E1:; T = T * 31 + 7; return 0; }
static int r20(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if (!(p(2, b))) goto A1_0; v2 = p(3, a); T = T * 31 + 4; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 5; if (!((b < w3) || (b == 2))) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; goto N3; L3:; if (!(b > -1)) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; T = T * 31 + 10; goto E1; A1_0:; ; T = T * 31 + 11; goto E1; A1_1:; E1:; T = T * 31 + 12; return 0; }
static int r21(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, v7 = 0, v9 = 0; T = T * 31 + 1; if (!(a <= -1)) goto A1_0; ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 2)) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(a)) goto J5; T = T * 31 + 6; goto L3; J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(c <= -1)) goto J6; T = T * 31 + 7; return 8; J6:; goto E1; A1_0:; ; v7 = p(9, a); T = T * 31 + 10; if (((!(c != -1)) || ((b < 1) && (v7 < 7)))) goto A8_0; v9 = p(11, a); T = T * 31 + 12; if (!(p(13, v9))) goto J10; T = T * 31 + 14; { *err = 1; return 0; } J10:; goto E8; A8_0:; E8:; T = T * 31 + 15; goto E1; A1_1:; E1:; T = T * 31 + 16; return 0; }
static int r22(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; if (!(a <= 2)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; v2 = p(3, a); T = T * 31 + 4; i3 = 0; C3: if (i3 > 1) goto L3; ; T = T * 31 + 5; if (!((a <= -1) || (a == -1))) goto J5; T = T * 31 + 6; return 7; J5:; N3: i3++; goto C3; L3:; if (!(c != 0)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; goto E1; A1_1:; E1:; T = T * 31 + 9; return 0; }
static int r23(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, e7 = 0, n7 = 0, v8 = 0; T = T * 31 + 1; if (!(c != 1)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!((c == 7) && ((c) || (c > 0)))) goto A3_0; v4 = p(3, a); T = T * 31 + 4; T = T * 31 + 5; goto E3; A3_0:; if (!(!(c != 2))) goto A3_1; T = T * 31 + 6; goto E3; A3_1:; if (!(b < 0)) goto A3_2; T = T * 31 + 7; goto E3; A3_2:; E3:; if (!(c > 2)) goto J5; T = T * 31 + 8; { *err = 1; return 0; } J5:; goto E1; A1_0:; ; v6 = p(9, a); T = T * 31 + 10; n7 = 0; C7: if (!(n7 < 2)) goto L7; { static const int t[] = { 0, -1, 0 }; e7 = t[n7]; } ; T = T * 31 + 11; if (!((b < b) && (v6 < c))) goto J9; T = T * 31 + 12; goto L7; J9:; N7: n7++; goto C7; L7:; if (!(b < c)) goto J10; T = T * 31 + 13; return 14; J10:; T = T * 31 + 15; goto E1; A1_1:; E1:; T = T * 31 + 16; return 0; }
static int r24(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; if (!(a)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; v2 = p(3, a); T = T * 31 + 4; s3 = v2; if (s3 == 0) goto S3_0; goto D3; S3_0:; if (!(!(b <= -1))) goto J4; T = T * 31 + 6; return 7; J4:; goto B3; D3:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 8; if (!((b <= 1) || (a < b))) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; T = T * 31 + 10; ; B3:; if (!((a) || (c == -1))) goto J7; T = T * 31 + 11; { *err = 1; return 0; } J7:; T = T * 31 + 12; goto E1; A1_1:; E1:; T = T * 31 + 13; return 0; }
static int r25(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; if (!(c)) goto A1_0; T = T * 31 + 2; s3 = c; if (s3 == 0) goto S3_0; if (s3 == 5) goto S3_0; if (s3 == 4) goto S3_1; if (s3 == 1) goto S3_2; if (s3 == 2) goto S3_3; if (s3 == 3) goto S3_4; if (s3 == 6) goto S3_5; goto D3; S3_0:; if (!((a < a) || (c > 7))) goto J4; T = T * 31 + 4; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 5; goto B3; S3_2:; T = T * 31 + 6; goto B3; S3_3:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 7; if (!((c == -1) || (a <= 0))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; goto B3; S3_4:; T = T * 31 + 11; goto B3; S3_5:; T = T * 31 + 12; goto B3; D3:; T = T * 31 + 13; ; B3:; if (!(a != 2)) goto J7; T = T * 31 + 14; { *err = 1; return 0; } J7:; goto E1; A1_0:; ; T = T * 31 + 15; goto E1; A1_1:; E1:; T = T * 31 + 16; return 0; }
static int r26(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, v7 = 0, v9 = 0; T = T * 31 + 1; if (!(c < b)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!(i3 != 1)) goto J5; T = T * 31 + 5; goto N3; J5:; N3: i3++; goto C3; L3:; if (!(c <= -1)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; goto E1; A1_0:; ; T = T * 31 + 7; ; v9 = p(8, a); T = T * 31 + 9; if (!(v9 < b)) goto J10; T = T * 31 + 10; { *err = 1; return 0; } J10:; ; if (!(c == -1)) goto J11; T = T * 31 + 11; { *err = 1; return 0; } J11:; goto E1; A1_1:; E1:; T = T * 31 + 12; return 0; }
static int r27(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v7 = 0, w8 = 0, v9 = 0; T = T * 31 + 1; if (!(c <= 7)) goto A1_0; ; T = T * 31 + 2; ex = 0; ; T = T * 31 + 3; if (!(p(4, b))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } if (!(a)) goto J6; T = T * 31 + 9; return 10; J6:; T = T * 31 + 11; goto E1; A1_0:; ; v7 = 0; T += v7; v7 = 5; T = T * 31 + 12; w8 = 0; N8: if (!(w8 < (c & 3))) goto L8; w8++; ; T = T * 31 + 13; if (!(c)) goto J10; T = T * 31 + 14; { *err = 1; return 0; } J10:; T = T * 31 + 15; goto N8; L8:; if (!(b < a)) goto J11; T = T * 31 + 16; { *err = 1; return 0; } J11:; goto E1; A1_1:; E1:; T = T * 31 + 17; return 0; }
static int r28(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(b <= 2)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; if (!(a == -1)) goto A1_1; T = T * 31 + 3; goto E1; A1_1:; ; v2 = p(4, a); T = T * 31 + 5; if (!(!(v2))) goto A3_0; T = T * 31 + 6; T = T * 31 + 7; goto E3; A3_0:; E3:; if (!((v2 < 7) || (b))) goto J5; T = T * 31 + 8; return 9; J5:; goto E1; A1_2:; E1:; T = T * 31 + 10; return 0; }
static int r29(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(c)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; if (!(p(3, a))) goto A1_1; T = T * 31 + 4; goto E1; A1_1:; if (!(a > 0)) goto A1_2; ; T = T * 31 + 5; if (!(a <= 7)) goto A3_0; T = T * 31 + 6; goto E3; A3_0:; ; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!(p(8, a))) goto J5; T = T * 31 + 9; return 10; J5:; T = T * 31 + 11; goto E1; A1_2:; E1:; T = T * 31 + 12; return 0; }
static int r30(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(a != 0)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; if (!(c != 0)) goto A1_1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; if (!((b) || (c == 0))) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; if (!(b)) goto A3_1; T = T * 31 + 5; goto E3; A3_1:; ; ; T = T * 31 + 6; if (!(b)) goto J5; T = T * 31 + 7; return 8; J5:; goto E3; A3_2:; E3:; if (!((a != 2) && (a != -1))) goto J6; T = T * 31 + 9; return 10; J6:; goto E1; A1_1:; ; T = T * 31 + 11; goto E1; A1_2:; E1:; T = T * 31 + 12; return 0; }
static int r31(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (!(b)) goto A1_0; T = T * 31 + 2; if ((c == 2)) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!(!(a < b))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto E3; A3_0:; E3:; if (!(a < a)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; T = T * 31 + 9; goto E1; A1_0:; if (!(a <= 0)) goto A1_1; T = T * 31 + 10; goto E1; A1_1:; E1:; T = T * 31 + 11; return 0; }
static int r32(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, v8 = 0; T = T * 31 + 1; if (!((c >= 7) || (!(c < b)))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if ((p(3, a))) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; ; v4 = p(5, a); T = T * 31 + 6; goto E3; A3_1:; E3:; if (!(a < 2)) goto J5; T = T * 31 + 7; return 8; J5:; goto E1; A1_0:; if (!(!(!(a < b)))) goto A1_1; v6 = p(9, a); T = T * 31 + 10; if ((((v6) && (b == 2)) || (a == 0))) goto A7_0; v8 = 0; T += v8; v8 = 5; T = T * 31 + 11; if (!(!(b >= -1))) goto J9; T = T * 31 + 12; { *err = 1; return 0; } J9:; goto E7; A7_0:; ; T = T * 31 + 13; goto E7; A7_1:; E7:; if (!(v6 < v6)) goto J10; T = T * 31 + 14; return 15; J10:; T = T * 31 + 16; goto E1; A1_1:; E1:; T = T * 31 + 17; return 0; }
static int r33(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0, v7 = 0, e8 = 0, n8 = 0, v9 = 0; T = T * 31 + 1; if (!(p(2, a))) goto A1_0; T = T * 31 + 3; goto E1; A1_0:; if (!(p(4, a))) goto A1_1; v2 = p(5, a); T = T * 31 + 6; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; v4 = 0; T += v4; v4 = 5; T = T * 31 + 7; if (!(b < 2)) goto J5; T = T * 31 + 8; goto L3; J5:; T = T * 31 + 9; goto N3; L3:; if (!(a < 2)) goto J6; T = T * 31 + 10; return 11; J6:; goto E1; A1_1:; if (!(a < b)) goto A1_2; T = T * 31 + 12; goto E1; A1_2:; ; T = T * 31 + 13; n8 = 0; C8: if (!(n8 < 2)) goto L8; { static const int t[] = { -1, -1, 0 }; e8 = t[n8]; } ; T = T * 31 + 14; if (!(a > 2)) goto J10; T = T * 31 + 15; goto N8; J10:; T = T * 31 + 16; N8: n8++; goto C8; L8:; if (!(a > 2)) goto J11; T = T * 31 + 17; { *err = 1; return 0; } J11:; goto E1; A1_3:; E1:; T = T * 31 + 18; return 0; }
static int r34(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if (!(b < -1)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; if (!(c >= 7)) goto A1_1; T = T * 31 + 3; goto E1; A1_1:; if (!(!(c < 0))) goto A1_2; v2 = 0; T += v2; v2 = 5; T = T * 31 + 4; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(c < -1)) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; goto N3; L3:; T = T * 31 + 9; goto E1; A1_2:; E1:; T = T * 31 + 10; return 0; }
static int r35(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, v7 = 0, w8 = 0, v9 = 0, v11 = 0; T = T * 31 + 1; if (!(b == 7)) goto A1_0; ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 3)) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(!(v4 <= 0))) goto J5; T = T * 31 + 6; goto L3; J5:; T = T * 31 + 7; N3: i3 = q(3, i3); goto C3; L3:; if (!(!(b > 1))) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_0:; if (!(c)) goto A1_1; T = T * 31 + 10; goto E1; A1_1:; if (!((!(c < a)) || (p(11, a)))) goto A1_2; ; T = T * 31 + 12; w8 = 0; N8: if (!(w8 < (a & 3))) goto L8; w8++; T = T * 31 + 13; goto N8; L8:; if (!(b != 7)) goto J10; T = T * 31 + 14; { *err = 1; return 0; } J10:; goto E1; A1_2:; ; v11 = 0; T += v11; v11 = 5; T = T * 31 + 15; if (!(c != 0)) goto J12; T = T * 31 + 16; return 17; J12:; goto E1; A1_3:; E1:; T = T * 31 + 18; return 0; }
static int r36(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, v7 = 0, v9 = 0; T = T * 31 + 1; if (!(!((a) || (c > -1)))) goto A1_0; ; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((c >= -1) && (c < a))) goto J5; T = T * 31 + 4; goto L3; J5:; T = T * 31 + 5; N3: i3++; goto C3; L3:; if (!((b >= 7) && (a < 2))) goto J6; T = T * 31 + 6; return 7; J6:; goto E1; A1_0:; if (!(a < c)) goto A1_1; v7 = p(8, a); T = T * 31 + 9; if (((b) && (c > -1))) goto A8_0; T = T * 31 + 10; goto E8; A8_0:; ; v9 = 0; T += v9; v9 = 5; T = T * 31 + 11; if (!(b > 1)) goto J10; T = T * 31 + 12; { *err = 1; return 0; } J10:; T = T * 31 + 13; goto E8; A8_1:; E8:; if (!(b <= 1)) goto J11; T = T * 31 + 14; return 15; J11:; goto E1; A1_1:; E1:; T = T * 31 + 16; return 0; }
static int r37(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; if (!(!((b <= 1) || (c < 2)))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { -1, 1, 0, 0 }; e3 = t[n3]; } T = T * 31 + 4; if (!(e3)) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; N3: n3++; goto C3; L3:; if (!(a > 0)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; T = T * 31 + 9; goto E1; A1_0:; if (!((a > 2) || (c < -1))) goto A1_1; T = T * 31 + 10; goto E1; A1_1:; if (!(c < a)) goto A1_2; T = T * 31 + 11; goto E1; A1_2:; ; T = T * 31 + 12; goto E1; A1_3:; E1:; T = T * 31 + 13; return 0; }
static int r38(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, v8 = 0, v10 = 0, e11 = 0, n11 = 0, v12 = 0; T = T * 31 + 1; if (!(a)) goto A1_0; T = T * 31 + 2; s3 = c; if (s3 == 5) goto S3_0; goto D3; S3_0:; if (!(b < c)) goto J4; T = T * 31 + 4; goto B3; J4:; goto B3; D3:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 5; if (!(a)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; ; B3:; if (!(b < b)) goto J7; T = T * 31 + 7; { *err = 1; return 0; } J7:; T = T * 31 + 8; goto E1; A1_0:; if (!(p(9, c))) goto A1_1; v8 = p(10, a); T = T * 31 + 11; if (!(b > -1)) goto J9; T = T * 31 + 12; return 13; J9:; T = T * 31 + 14; goto E1; A1_1:; ; T = T * 31 + 15; n11 = 0; C11: if (!(n11 < 3)) goto L11; { static const int t[] = { 1, 1, 0, 0 }; e11 = t[n11]; } T = T * 31 + 16; if (!(b)) goto J13; T = T * 31 + 17; goto N11; J13:; N11: n11++; goto C11; L11:; if (!(!(c >= 1))) goto J14; T = T * 31 + 18; return 19; J14:; goto E1; A1_2:; E1:; T = T * 31 + 20; return 0; }
static int r39(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, v8 = 0; T = T * 31 + 1; if (!(a < c)) goto A1_0; ; T = T * 31 + 2; s3 = (int)(int8_t)a; if (s3 == 7) goto S3_0; if (s3 == 6) goto S3_1; if (s3 == 0) goto S3_2; if (s3 == 4) goto S3_2; if (s3 == 1) goto S3_2; if (s3 == 5) goto S3_3; if (s3 == 2) goto S3_4; if (s3 == 3) goto S3_5; goto B3; S3_0:; if (!(!(a < 1))) goto J4; T = T * 31 + 4; goto B3; J4:; goto B3; S3_1:; ; T = T * 31 + 5; if (!(c != 7)) goto J6; T = T * 31 + 6; goto B3; J6:; goto B3; S3_2:; T = T * 31 + 7; goto B3; S3_3:; T = T * 31 + 8; goto B3; S3_4:; T = T * 31 + 9; goto B3; S3_5:; T = T * 31 + 10; goto B3; B3:; if (!((a) || (a < a))) goto J7; T = T * 31 + 11; { *err = 1; return 0; } J7:; goto E1; A1_0:; if (!(a)) goto A1_1; T = T * 31 + 12; goto E1; A1_1:; if (!(c)) goto A1_2; v8 = p(13, a); T = T * 31 + 14; if (!(!(b == 1))) goto J9; T = T * 31 + 15; return 16; J9:; T = T * 31 + 17; goto E1; A1_2:; ; T = T * 31 + 18; goto E1; A1_3:; E1:; T = T * 31 + 19; return 0; }
static int r40(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0, v7 = 0, v9 = 0; T = T * 31 + 1; if (!(b < c)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = p(3, a); if (s3 == 127) goto S3_0; goto B3; S3_0:; ; T = T * 31 + 4; if (!(a < 2)) goto J5; T = T * 31 + 5; goto B3; J5:; goto B3; B3:; if (!(p(6, a))) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; goto E1; A1_0:; if (!(a >= 0)) goto A1_1; T = T * 31 + 10; ; v9 = 0; T += v9; v9 = 5; T = T * 31 + 11; if (!(p(12, b))) goto J10; T = T * 31 + 13; return 14; J10:; T = T * 31 + 15; ; if (!(p(16, b))) goto J11; T = T * 31 + 17; { *err = 1; return 0; } J11:; goto E1; A1_1:; if (!((a >= -1) && (b != 0))) goto A1_2; T = T * 31 + 18; goto E1; A1_2:; ; T = T * 31 + 19; goto E1; A1_3:; E1:; T = T * 31 + 20; return 0; }
static int r41(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, v7 = 0, v9 = 0; T = T * 31 + 1; if (!(a)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(a == 1)) goto J5; T = T * 31 + 4; goto N3; J5:; N3: i3++; goto C3; L3:; if (!((b > 7) || (b != -1))) goto J6; T = T * 31 + 5; { *err = 1; return 0; } J6:; T = T * 31 + 6; goto E1; A1_0:; if (!(b == -1)) goto A1_1; v7 = 0; T += v7; v7 = 5; T = T * 31 + 7; ex = 0; v9 = p(8, a); T = T * 31 + 9; if (!(c >= -1)) goto J10; T = T * 31 + 10; return 11; J10:; V8:; if (ex) { T = T * 31 + 12; } if (!(c < c)) goto J11; T = T * 31 + 13; { *err = 1; return 0; } J11:; goto E1; A1_1:; ; T = T * 31 + 14; goto E1; A1_2:; E1:; T = T * 31 + 15; return 0; }
static int r42(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if ((b > 2)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!((c <= -1) || (!(c < b)))) goto A3_0; ; T = T * 31 + 3; if (!(a > 1)) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; goto E3; A3_0:; E3:; if (!(p(7, a))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; goto E1; A1_0:; E1:; T = T * 31 + 9; return 0; }
static int r43(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (((c != -1) && (a < a))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(a <= 2)) goto A3_0; T = T * 31 + 3; if (!(!(b < 2))) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; goto E3; A3_0:; ; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!(a < b)) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_0:; E1:; T = T * 31 + 10; return 0; }
static int r44(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (((b < 2) && (a > 0))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if (!(a < 1)) goto A3_0; ; T = T * 31 + 4; goto E3; A3_0:; if (!(v2 <= -1)) goto A3_1; T = T * 31 + 5; goto E3; A3_1:; E3:; if (!(a != 2)) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; goto E1; A1_0:; E1:; T = T * 31 + 8; return 0; }
static int r45(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if ((b <= 7)) goto A1_0; ; T = T * 31 + 2; if (((a == 2) || (c == 1))) goto A3_0; v4 = p(3, a); T = T * 31 + 4; goto E3; A3_0:; E3:; if (!((b > -1) && (a))) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; goto E1; A1_0:; E1:; T = T * 31 + 7; return 0; }
static int r46(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if ((p(2, a))) goto A1_0; T = T * 31 + 3; if (((p(4, b)) && (c > 0))) goto A3_0; T = T * 31 + 5; goto E3; A3_0:; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 6; if (!((a <= -1) || (a <= 7))) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; goto E3; A3_1:; E3:; if (!(!(c <= 7))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; goto E1; A1_0:; E1:; T = T * 31 + 11; return 0; }
static int r47(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if ((((b < a) && (c)) && (a > 1))) goto A1_0; ; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; ; T = T * 31 + 3; if (!(w3 != -1)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; goto N3; L3:; if (!((b >= 2) && (a < 2))) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; goto E1; A1_0:; E1:; T = T * 31 + 7; return 0; }
static int r48(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if ((p(2, b))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(v4 >= 0)) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; goto N3; L3:; if (!((c <= 2) && (c > 0))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; goto E1; A1_0:; E1:; T = T * 31 + 11; return 0; }
static int r49(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; if ((!(c))) goto A1_0; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!((a < 0) && (c != 1))) goto J5; T = T * 31 + 5; goto L3; J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(b == 7)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; goto E1; A1_0:; E1:; T = T * 31 + 7; return 0; }
static int r50(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; if (((a) || ((b) || (c)))) goto A1_0; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!(a == 7)) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; N3: i3++; goto C3; L3:; if (!(!(c < -1))) goto J6; T = T * 31 + 7; return 8; J6:; goto E1; A1_0:; E1:; T = T * 31 + 9; return 0; }
static int r51(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; if (((!(b != 1)) && (b < -1))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { -1, 0, 1, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(e3)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; N3: n3++; goto C3; L3:; if (!(b == 7)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; goto E1; A1_0:; E1:; T = T * 31 + 7; return 0; }
static int r52(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; if ((((c < b) && (c)) || (a < 1))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = a; if (s3 == 3) goto S3_0; if (s3 == 2) goto S3_0; if (s3 == 0) goto S3_1; goto D3; S3_0:; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(b)) goto J5; T = T * 31 + 5; goto B3; J5:; goto B3; S3_1:; T = T * 31 + 6; goto B3; D3:; T = T * 31 + 7; ; B3:; if (!(c == -1)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; goto E1; A1_0:; E1:; T = T * 31 + 9; return 0; }
static int r53(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; if ((((b) || (a)) && (p(2, c)))) goto A1_0; ; T = T * 31 + 3; s3 = p(4, a); if (s3 == -1) goto S3_0; if (s3 == -7) goto S3_0; if (s3 == -128) goto S3_1; if (s3 == 1000000) goto S3_1; if (s3 == 127) goto S3_1; if (s3 == INT32_MIN) goto S3_2; if (s3 == 1) goto S3_3; if (s3 == 128) goto S3_3; goto B3; S3_0:; if (!(b)) goto J4; T = T * 31 + 5; return 6; J4:; goto B3; S3_1:; T = T * 31 + 7; goto B3; S3_2:; T = T * 31 + 8; if (!((a) || (b != 2))) goto J6; T = T * 31 + 9; goto B3; J6:; T = T * 31 + 10; goto B3; S3_3:; T = T * 31 + 11; goto B3; B3:; if (!(c < b)) goto J7; T = T * 31 + 12; { *err = 1; return 0; } J7:; goto E1; A1_0:; E1:; T = T * 31 + 13; return 0; }
static int r54(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if ((a >= 2)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ; ; T = T * 31 + 3; if (!((c) || (b < b))) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; ; if (!(a < a)) goto J6; T = T * 31 + 5; return 6; J6:; goto E1; A1_0:; E1:; T = T * 31 + 7; return 0; }
static int r55(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if ((((b == 2) && (c < 2)) && (a))) goto A1_0; ; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!(p(4, a))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } if (!(c)) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; T = T * 31 + 10; goto E1; A1_0:; E1:; T = T * 31 + 11; return 0; }
static int r56(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if ((b != 7)) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if (!(p(4, c))) goto A3_0; T = T * 31 + 5; if (!((c) || (v2 >= 7))) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; goto E3; A3_0:; E3:; if (!(b > 7)) goto J6; T = T * 31 + 7; return 8; J6:; goto E1; A1_0:; ; T = T * 31 + 9; goto E1; A1_1:; E1:; T = T * 31 + 10; return 0; }
static int r57(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, v8 = 0; T = T * 31 + 1; if ((a)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(p(3, b))) goto A3_0; v4 = p(4, a); T = T * 31 + 5; goto E3; A3_0:; ; T = T * 31 + 6; goto E3; A3_1:; E3:; if (!(p(7, b))) goto J5; T = T * 31 + 8; { *err = 1; return 0; } J5:; goto E1; A1_0:; ; T = T * 31 + 9; ; v8 = 0; T += v8; v8 = 5; T = T * 31 + 10; if (!(p(11, c))) goto J9; T = T * 31 + 12; { *err = 1; return 0; } J9:; T = T * 31 + 13; ; if (!(a < a)) goto J10; T = T * 31 + 14; return 15; J10:; goto E1; A1_1:; E1:; T = T * 31 + 16; return 0; }
static int r58(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v7 = 0, i8 = 0, v9 = 0; T = T * 31 + 1; if (((a < 0) || (c > -1))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if (!((a < 0) && (c < a))) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; if (!(b <= 7)) goto A3_1; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(a < 7)) goto J5; T = T * 31 + 6; return 7; J5:; goto E3; A3_1:; E3:; if (!((c < b) || (c < v2))) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_0:; ; T = T * 31 + 10; i8 = 0; C8: if (i8 > 1) goto L8; v9 = p(11, a); T = T * 31 + 12; if (!(!(b < b))) goto J10; T = T * 31 + 13; goto N8; J10:; N8: i8++; goto C8; L8:; if (!(b)) goto J11; T = T * 31 + 14; { *err = 1; return 0; } J11:; T = T * 31 + 15; goto E1; A1_1:; E1:; T = T * 31 + 16; return 0; }
static int r59(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if ((b < 1)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; T = T * 31 + 3; if ((a >= 1)) goto A3_0; ; T = T * 31 + 4; if (!(a > 1)) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto E3; A3_0:; E3:; if (!(c <= 7)) goto J6; T = T * 31 + 8; return 9; J6:; goto E1; A1_1:; E1:; T = T * 31 + 10; return 0; }
static int r60(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (((!(b >= 0)) || (!(b > -1)))) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; v2 = p(3, a); T = T * 31 + 4; if ((a < 0)) goto A3_0; T = T * 31 + 5; if (!(p(6, b))) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; goto E3; A3_0:; ; T = T * 31 + 8; goto E3; A3_1:; E3:; if (!((c < c) || (b < c))) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; T = T * 31 + 10; goto E1; A1_1:; E1:; T = T * 31 + 11; return 0; }
static int r61(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if ((a)) goto A1_0; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; v4 = p(3, a); T = T * 31 + 4; if (!(b == 2)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; goto N3; L3:; if (!((c < 7) && (c >= 1))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; goto E1; A1_0:; ; T = T * 31 + 8; goto E1; A1_1:; E1:; T = T * 31 + 9; return 0; }
static int r62(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; if ((b < b)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 4; if (!(a)) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; goto N3; L3:; if (!(c != 1)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; goto E1; A1_1:; E1:; T = T * 31 + 9; return 0; }
static int r63(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; if ((p(2, a))) goto A1_0; T = T * 31 + 3; goto E1; A1_0:; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 4; i3 = 0; C3: if (!(i3 < 3)) goto L3; v4 = p(6, a); T = T * 31 + 7; if (!(b == -1)) goto J5; T = T * 31 + 8; goto N3; J5:; T = T * 31 + 9; N3: i3 = q(5, i3); goto C3; L3:; if (!(b == 1)) goto J6; T = T * 31 + 10; return 11; J6:; goto E1; A1_1:; E1:; T = T * 31 + 12; return 0; }
static int r64(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; if ((b < c)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; T = T * 31 + 3; i3 = 0; C3: if (i3 > 1) goto L3; T = T * 31 + 4; if (!(p(5, c))) goto J5; T = T * 31 + 6; goto N3; J5:; T = T * 31 + 7; N3: i3++; goto C3; L3:; if (!(b)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; goto E1; A1_1:; E1:; T = T * 31 + 9; return 0; }
static int r65(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; if ((p(2, b))) goto A1_0; ; T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 7, 7, 0, 0 }; e3 = t[n3]; } T = T * 31 + 4; if (!(b >= 2)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; if (!((a < a) && (b < 0))) goto J6; T = T * 31 + 7; return 8; J6:; goto E1; A1_0:; ; T = T * 31 + 9; goto E1; A1_1:; E1:; T = T * 31 + 10; return 0; }
static int r66(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; if ((p(2, a))) goto A1_0; T = T * 31 + 3; s3 = (int)(int8_t)b; if (s3 == 0) goto S3_0; if (s3 == 2147483647) goto S3_1; if (s3 == 127) goto S3_1; goto D3; S3_0:; if (!(!(c >= -1))) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 6; if (!(a <= 0)) goto J6; T = T * 31 + 7; goto B3; J6:; goto B3; D3:; T = T * 31 + 8; ; B3:; if (!(b > 0)) goto J7; T = T * 31 + 9; { *err = 1; return 0; } J7:; goto E1; A1_0:; ; T = T * 31 + 10; goto E1; A1_1:; E1:; T = T * 31 + 11; return 0; }
static int r67(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v7 = 0, s8 = 0, v10 = 0; T = T * 31 + 1; if (((a) || ((b > 7) && (b <= 0)))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; ; ; T = T * 31 + 4; if (!(b <= -1)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; ; if (!(a <= 7)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto E1; A1_0:; ; v7 = 0; T += v7; v7 = 5; T = T * 31 + 8; s8 = p(9, a); if (s8 == 1) goto S8_0; if (s8 == 3) goto S8_1; if (s8 == 7) goto S8_1; if (s8 == 5) goto S8_2; if (s8 == 2) goto S8_3; if (s8 == 6) goto S8_4; goto B8; S8_0:; if (!(!(c < 7))) goto J9; T = T * 31 + 10; goto B8; J9:; goto B8; S8_1:; T = T * 31 + 11; goto B8; S8_2:; T = T * 31 + 12; goto B8; S8_3:; v10 = p(13, a); T = T * 31 + 14; if (!(!(v10 >= 0))) goto J11; T = T * 31 + 15; return 16; J11:; T = T * 31 + 17; goto B8; S8_4:; T = T * 31 + 18; goto B8; B8:; if (!((b < b) || (b >= 2))) goto J12; T = T * 31 + 19; { *err = 1; return 0; } J12:; T = T * 31 + 20; goto E1; A1_1:; E1:; T = T * 31 + 21; return 0; }
static int r68(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, v8 = 0; T = T * 31 + 1; if ((a == 7)) goto A1_0; v2 = p(2, a); T = T * 31 + 3; ; v4 = p(4, a); T = T * 31 + 5; ; if (!((v2 < v2) && (c < v2))) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; goto E1; A1_0:; ; v6 = p(7, a); T = T * 31 + 8; if (!(a > 7)) goto A7_0; T = T * 31 + 9; goto E7; A7_0:; if (!(a < c)) goto A7_1; v8 = 0; T += v8; v8 = 5; T = T * 31 + 10; if (!(b != 1)) goto J9; T = T * 31 + 11; return 12; J9:; T = T * 31 + 13; goto E7; A7_1:; if (!(v6 >= 2)) goto A7_2; T = T * 31 + 14; goto E7; A7_2:; ; T = T * 31 + 15; goto E7; A7_3:; E7:; if (!(v6 < 0)) goto J10; T = T * 31 + 16; return 17; J10:; T = T * 31 + 18; goto E1; A1_1:; E1:; T = T * 31 + 19; return 0; }
static int r69(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; if (((b < 0) || (a))) goto A1_0; T = T * 31 + 2; ex = 0; ; T = T * 31 + 3; if (!((b > -1) || (a == -1))) goto J5; T = T * 31 + 4; { ex = 1; goto V3; } J5:; V3:; if (ex) { T = T * 31 + 5; } if (!(b > 0)) goto J6; T = T * 31 + 6; return 7; J6:; T = T * 31 + 8; goto E1; A1_0:; ; T = T * 31 + 9; goto E1; A1_1:; E1:; T = T * 31 + 10; return 0; }
static int r70(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(b)) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!(v4 <= 1)) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; goto E3; A3_0:; E3:; if (!((b >= 1) || (a <= 0))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r71(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; ; T = T * 31 + 2; if (!(c < b)) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; ; v4 = p(4, a); T = T * 31 + 5; if (!(b >= 1)) goto J5; T = T * 31 + 6; goto N1; J5:; goto E3; A3_1:; E3:; if (!(c <= 2)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r72(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(c > -1)) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; if (!((a < -1) || (p(4, a)))) goto A3_1; T = T * 31 + 5; goto E3; A3_1:; if (!((w1 == 2) || (b > 2))) goto A3_2; T = T * 31 + 6; goto E3; A3_2:; ; ; T = T * 31 + 7; if (!(b < c)) goto J5; T = T * 31 + 8; { *err = 1; return 0; } J5:; T = T * 31 + 9; goto E3; A3_3:; E3:; if (!((b < w1) && (a >= 0))) goto J6; T = T * 31 + 10; goto N1; J6:; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r73(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if ((a < b)) goto A3_0; ; T = T * 31 + 3; if (!((c) && (b < 7))) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; goto E3; A3_0:; E3:; if (!((b < w1) && (b < -1))) goto J6; T = T * 31 + 5; goto L1; J6:; goto N1; L1:; T = T * 31 + 6; return 0; }
static int r74(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; if (((!(a == 2)) || ((c < w1) && (c)))) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; ; T = T * 31 + 4; T = T * 31 + 5; goto E3; A3_1:; E3:; if (!(b < w1)) goto J5; T = T * 31 + 6; goto L1; J5:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r75(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; ; T = T * 31 + 3; T = T * 31 + 4; goto N3; L3:; if (!(c < w1)) goto J5; T = T * 31 + 5; goto N1; J5:; T = T * 31 + 6; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r76(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = p(2, a); T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; ; T = T * 31 + 4; if (!(a < w1)) goto J5; T = T * 31 + 5; goto L3; J5:; goto N3; L3:; if (!((a == -1) && (b <= -1))) goto J6; T = T * 31 + 6; goto L1; J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r77(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(a >= -1)) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; N3: i3 = q(3, i3); goto C3; L3:; if (!((a >= 1) || (c))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; T = T * 31 + 9; goto N1; L1:; T = T * 31 + 10; return 0; }
static int r78(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!(b)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; N3: i3++; goto C3; L3:; if (!(c != 0)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r79(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 7, 7, -1, 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; if (!(w1)) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; if (!(a > 7)) goto J6; T = T * 31 + 7; goto N1; J6:; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r80(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; T = T * 31 + 2; s3 = p(3, c); if (s3 == 5) goto S3_0; if (s3 == 2) goto S3_1; if (s3 == 4) goto S3_2; goto B3; S3_0:; if (!(!(b))) goto J4; T = T * 31 + 4; goto N1; J4:; goto B3; S3_1:; T = T * 31 + 5; goto B3; S3_2:; v5 = p(6, a); T = T * 31 + 7; if (!(!(a == -1))) goto J6; T = T * 31 + 8; goto L1; J6:; goto B3; B3:; if (!(b)) goto J7; T = T * 31 + 9; goto N1; J7:; T = T * 31 + 10; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r81(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; T = T * 31 + 2; s3 = (c & 7); if (s3 == 128) goto S3_0; if (s3 == 1000000) goto S3_1; if (s3 == 97) goto S3_2; if (s3 == 2147483647) goto S3_2; if (s3 == -7) goto S3_3; if (s3 == 0) goto S3_4; goto B3; S3_0:; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(p(5, w1))) goto J5; T = T * 31 + 6; goto B3; J5:; T = T * 31 + 7; goto B3; S3_1:; T = T * 31 + 8; goto B3; S3_2:; T = T * 31 + 9; goto B3; S3_3:; T = T * 31 + 10; goto B3; S3_4:; T = T * 31 + 11; goto B3; B3:; T = T * 31 + 12; goto N1; L1:; T = T * 31 + 13; return 0; }
static int r82(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(a >= 1)) goto J5; T = T * 31 + 4; goto N1; J5:; T = T * 31 + 5; ; if (!(p(6, a))) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r83(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; v2 = p(2, a); T = T * 31 + 3; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(!(b))) goto J5; T = T * 31 + 5; goto N1; J5:; V3:; if (ex) { T = T * 31 + 6; } if (!(c <= 2)) goto J6; T = T * 31 + 7; goto L1; J6:; T = T * 31 + 8; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r84(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; ; T = T * 31 + 2; if (!(c)) goto A3_0; ; T = T * 31 + 3; if (!(c)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; goto E3; A3_0:; E3:; if (!((w1 == 7) || (a))) goto J6; T = T * 31 + 6; goto L1; J6:; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r85(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(a >= 7)) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; ; v4 = p(4, a); T = T * 31 + 5; if (!(w1 <= 0)) goto J5; T = T * 31 + 6; goto N1; J5:; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!(b)) goto J6; T = T * 31 + 8; goto L1; J6:; T = T * 31 + 9; goto N1; L1:; T = T * 31 + 10; return 0; }
static int r86(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; ; T = T * 31 + 2; if (!(!(c < 0))) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!((v4 < a) && (b != 7))) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; goto E3; A3_0:; if (!(p(7, c))) goto A3_1; T = T * 31 + 8; goto E3; A3_1:; E3:; if (!(!(w1 >= 2))) goto J6; T = T * 31 + 9; goto N1; J6:; goto N1; L1:; T = T * 31 + 10; return 0; }
static int r87(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; T = T * 31 + 2; if ((c >= 0)) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(w1 != 0)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; goto E3; A3_0:; E3:; if (!(!(w1 < 1))) goto J6; T = T * 31 + 6; return 7; J6:; T = T * 31 + 8; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r88(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if ((!(a > 2))) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; ; ; T = T * 31 + 4; if (!(c <= 1)) goto J5; T = T * 31 + 5; goto N1; J5:; goto E3; A3_1:; E3:; if (!(w1 <= 2)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r89(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; ; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (c & 3))) goto L3; w3++; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(w3 < c)) goto J5; T = T * 31 + 4; goto N3; J5:; goto N3; L3:; T = T * 31 + 5; goto N1; L1:; T = T * 31 + 6; return 0; }
static int r90(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; ; T = T * 31 + 3; goto N3; L3:; if (!((w1) || (c != 7))) goto J5; T = T * 31 + 4; goto N1; J5:; T = T * 31 + 5; goto N1; L1:; T = T * 31 + 6; return 0; }
static int r91(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(w1 == 7)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(a <= 1)) goto J6; T = T * 31 + 6; goto L1; J6:; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r92(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!(!(b > 0))) goto J5; T = T * 31 + 5; goto N3; J5:; N3: i3++; goto C3; L3:; if (!(!(w1 >= 0))) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r93(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 0)) goto L3; { static const int t[] = { 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; if (!((c > 7) || (c < a))) goto J5; T = T * 31 + 5; return 6; J5:; N3: n3++; goto C3; L3:; if (!(!(b > -1))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r94(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; ; T = T * 31 + 2; s3 = w1; if (s3 == 5) goto S3_0; if (s3 == 6) goto S3_1; if (s3 == 3) goto S3_2; goto B3; S3_0:; if (!(p(4, b))) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; S3_1:; ; T = T * 31 + 6; if (!(!(w1 == 0))) goto J6; T = T * 31 + 7; goto B3; J6:; goto B3; S3_2:; T = T * 31 + 8; goto B3; B3:; if (!(w1 != 0)) goto J7; T = T * 31 + 9; goto L1; J7:; T = T * 31 + 10; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r95(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = p(2, a); T = T * 31 + 3; s3 = p(4, c); if (s3 == 97) goto S3_0; if (s3 == 2) goto S3_0; if (s3 == -1) goto S3_0; if (s3 == 2147483647) goto S3_1; if (s3 == 5) goto S3_1; if (s3 == -7) goto S3_2; goto D3; S3_0:; if (!(c != 7)) goto J4; T = T * 31 + 5; goto N1; J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; S3_2:; T = T * 31 + 7; T = T * 31 + 8; goto B3; D3:; T = T * 31 + 9; ; B3:; if (!(v2)) goto J6; T = T * 31 + 10; { *err = 1; return 0; } J6:; T = T * 31 + 11; goto N1; L1:; T = T * 31 + 12; return 0; }
static int r96(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; ; T = T * 31 + 2; ; T = T * 31 + 3; if (!(c <= 0)) goto J5; T = T * 31 + 4; goto L1; J5:; ; if (!(!(a >= -1))) goto J6; T = T * 31 + 5; goto N1; J6:; goto N1; L1:; T = T * 31 + 6; return 0; }
static int r97(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = p(2, a); T = T * 31 + 3; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!((c < a) || (w1 > 0))) goto J5; T = T * 31 + 5; return 6; J5:; V3:; if (ex) { T = T * 31 + 7; } if (!(p(8, a))) goto J6; T = T * 31 + 9; goto L1; J6:; T = T * 31 + 10; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r98(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; T = T * 31 + 3; if (!(b)) goto A3_0; ; T = T * 31 + 4; if (!(a < i1)) goto J5; T = T * 31 + 5; goto L1; J5:; goto E3; A3_0:; E3:; if (!(i1)) goto J6; T = T * 31 + 6; goto N1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 7; return 0; }
static int r99(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; T = T * 31 + 3; if (!(p(4, b))) goto A3_0; T = T * 31 + 5; goto E3; A3_0:; ; v4 = p(6, a); T = T * 31 + 7; if (!((a >= -1) || (c >= 1))) goto J5; T = T * 31 + 8; goto N1; J5:; T = T * 31 + 9; goto E3; A3_1:; E3:; if (!(b != 1)) goto J6; T = T * 31 + 10; goto L1; J6:; T = T * 31 + 11; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 12; return 0; }
static int r100(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; v2 = p(3, a); T = T * 31 + 4; if (!(v2)) goto A3_0; T = T * 31 + 5; goto E3; A3_0:; if (!((!(i1 < 1)) || (b > 7))) goto A3_1; ; T = T * 31 + 6; if (!(c)) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; goto E3; A3_1:; if (!(i1)) goto A3_2; T = T * 31 + 8; goto E3; A3_2:; ; T = T * 31 + 9; goto E3; A3_3:; E3:; if (!(i1 < b)) goto J6; T = T * 31 + 10; return 11; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 12; return 0; }
static int r101(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; v2 = p(3, a); T = T * 31 + 4; if ((v2 > 2)) goto A3_0; T = T * 31 + 5; if (!((v2 < v2) || (b))) goto J5; T = T * 31 + 6; goto N1; J5:; goto E3; A3_0:; E3:; if (!(a <= 7)) goto J6; T = T * 31 + 7; goto N1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r102(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; ; T = T * 31 + 3; if ((p(4, a))) goto A3_0; T = T * 31 + 5; if (!((a != 7) && (a != 0))) goto J5; T = T * 31 + 6; goto L1; J5:; goto E3; A3_0:; ; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!(p(8, i1))) goto J6; T = T * 31 + 9; goto N1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r103(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; ; T = T * 31 + 3; w3 = 0; N3: if (!(w3 < (c & 3))) goto L3; w3++; ; T = T * 31 + 4; if (!(a == 1)) goto J5; T = T * 31 + 5; return 6; J5:; goto N3; L3:; if (!(!(a <= 2))) goto J6; T = T * 31 + 7; goto N1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r104(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(!(c < 1))) goto J5; T = T * 31 + 5; goto N3; J5:; T = T * 31 + 6; goto N3; L3:; if (!(p(7, b))) goto J6; T = T * 31 + 8; goto L1; J6:; T = T * 31 + 9; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r105(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; T = T * 31 + 6; N3: i3 = q(4, i3); goto C3; L3:; if (!(!(i1))) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r106(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; T = T * 31 + 3; i3 = 0; C3: if (i3 > 1) goto L3; T = T * 31 + 4; if (!(p(5, b))) goto J5; T = T * 31 + 6; goto L3; J5:; N3: i3++; goto C3; L3:; if (!(a < c)) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r107(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 7, -1, 1, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(b)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; N3: n3++; goto C3; L3:; if (!(b <= -1)) goto J6; T = T * 31 + 6; return 7; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r108(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; ; T = T * 31 + 3; s3 = p(4, i1); if (s3 == INT32_MIN) goto S3_0; if (s3 == 97) goto S3_0; goto B3; S3_0:; ; T = T * 31 + 5; goto B3; B3:; if (!(i1 > 2)) goto J5; T = T * 31 + 6; goto N1; J5:; T = T * 31 + 7; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r109(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; ; T = T * 31 + 3; s3 = p(4, i1); if (s3 == INT32_MIN) goto S3_0; if (s3 == 97) goto S3_0; if (s3 == -1) goto S3_0; if (s3 == -7) goto S3_1; if (s3 == 2147483647) goto S3_1; if (s3 == -128) goto S3_2; goto B3; S3_0:; ; T = T * 31 + 5; if (!(i1)) goto J5; T = T * 31 + 6; goto L1; J5:; T = T * 31 + 7; goto B3; S3_1:; T = T * 31 + 8; goto B3; S3_2:; T = T * 31 + 9; goto B3; B3:; if (!(c == 7)) goto J6; T = T * 31 + 10; goto L1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 11; return 0; }
static int r110(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; v2 = p(3, a); T = T * 31 + 4; ; T = T * 31 + 5; if (!(i1 >= 1)) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; ; if (!(p(8, i1))) goto J6; T = T * 31 + 9; goto N1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r111(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; v2 = p(3, a); T = T * 31 + 4; ex = 0; T = T * 31 + 5; V3:; if (ex) { T = T * 31 + 6; } if (!((i1 > 7) || (b))) goto J5; T = T * 31 + 7; goto L1; J5:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r112(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!((c) && (i1 == 2))) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!(c < i1)) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; goto E3; A3_0:; E3:; if (!(c <= 2)) goto J6; T = T * 31 + 7; goto N1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r113(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; if (!(c)) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(c <= 2)) goto J5; T = T * 31 + 4; goto L1; J5:; goto E3; A3_0:; ; T = T * 31 + 5; goto E3; A3_1:; E3:; if (!((i1 <= 7) || (c <= -1))) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r114(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; if (!((c < c) && (i1 <= 7))) goto A3_0; ; T = T * 31 + 4; if (!((v2 != 1) && (b < b))) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; goto E3; A3_0:; if (!(i1 >= 1)) goto A3_1; T = T * 31 + 6; goto E3; A3_1:; E3:; if (!(v2)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r115(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; if ((a > -1)) goto A3_0; ; T = T * 31 + 4; if (!(p(5, v2))) goto J5; T = T * 31 + 6; goto L1; J5:; T = T * 31 + 7; goto E3; A3_0:; E3:; if (!(!(i1 <= 7))) goto J6; T = T * 31 + 8; return 9; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r116(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; if ((b)) goto A3_0; T = T * 31 + 3; if (!(i1 >= 7)) goto J5; T = T * 31 + 4; goto L1; J5:; T = T * 31 + 5; goto E3; A3_0:; ; T = T * 31 + 6; goto E3; A3_1:; E3:; if (!(a < -1)) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; N1: i1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r117(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(c < 2)) goto J5; T = T * 31 + 4; return 5; J5:; goto N3; L3:; if (!((b < a) || (b < b))) goto J6; T = T * 31 + 6; goto L1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r118(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; ; T = T * 31 + 4; if (!((i1 == -1) || (w3 != 2))) goto J5; T = T * 31 + 5; goto N3; J5:; T = T * 31 + 6; goto N3; L3:; if (!(p(7, c))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r119(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 3)) goto L3; T = T * 31 + 4; if (!(b)) goto J5; T = T * 31 + 5; goto L3; J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(b >= 2)) goto J6; T = T * 31 + 6; goto L1; J6:; T = T * 31 + 7; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r120(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; ; T = T * 31 + 3; if (!(i1 <= 7)) goto J5; T = T * 31 + 4; goto N3; J5:; N3: i3++; goto C3; L3:; if (!(i1 >= 7)) goto J6; T = T * 31 + 5; goto N1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 6; return 0; }
static int r121(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, 7, 1, 0 }; e3 = t[n3]; } T = T * 31 + 3; N3: n3++; goto C3; L3:; T = T * 31 + 4; N1: i1++; goto C1; L1:; T = T * 31 + 5; return 0; }
static int r122(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = c; if (s3 == -7) goto S3_0; if (s3 == 127) goto S3_1; if (s3 == 2) goto S3_2; goto B3; S3_0:; v4 = p(4, a); T = T * 31 + 5; if (!(a == 1)) goto J5; T = T * 31 + 6; goto L1; J5:; goto B3; S3_1:; T = T * 31 + 7; goto B3; S3_2:; T = T * 31 + 8; goto B3; B3:; if (!(!(i1 <= 7))) goto J6; T = T * 31 + 9; goto L1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r123(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; s3 = v2; if (s3 == 0) goto S3_0; if (s3 == 3) goto S3_1; if (s3 == 2) goto S3_1; if (s3 == 5) goto S3_2; if (s3 == 7) goto S3_3; if (s3 == 1) goto S3_3; if (s3 == 6) goto S3_3; if (s3 == 4) goto S3_4; goto B3; S3_0:; T = T * 31 + 5; if (!(p(6, b))) goto J5; T = T * 31 + 7; goto N1; J5:; goto B3; S3_1:; T = T * 31 + 8; goto B3; S3_2:; T = T * 31 + 9; goto B3; S3_3:; T = T * 31 + 10; goto B3; S3_4:; T = T * 31 + 11; goto B3; B3:; if (!(i1 != 0)) goto J6; T = T * 31 + 12; goto L1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 13; return 0; }
static int r124(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; ; ; T = T * 31 + 3; if (!(c < 1)) goto J5; T = T * 31 + 4; goto L1; J5:; T = T * 31 + 5; ; if (!(a > 7)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; N1: i1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r125(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!((i1 != 1) && (i1 >= 2))) goto J5; T = T * 31 + 4; goto L1; J5:; T = T * 31 + 5; V3:; if (ex) { T = T * 31 + 6; } if (!(p(7, a))) goto J6; T = T * 31 + 8; goto N1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r126(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(a < b)) goto A3_0; T = T * 31 + 3; if (!(p(4, c))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto E3; A3_0:; E3:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r127(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { -1, 7, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; if (!(a < 7)) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; ; v4 = p(4, a); T = T * 31 + 5; if (!((c == 0) && (c == -1))) goto J5; T = T * 31 + 6; goto N1; J5:; goto E3; A3_1:; E3:; if (!(!(e1 <= 2))) goto J6; T = T * 31 + 7; goto N1; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r128(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, -1, 1, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; if (!(b >= 2)) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; if (!(v2)) goto A3_1; T = T * 31 + 5; goto E3; A3_1:; ; ; T = T * 31 + 6; if (!((b < 0) && (c > 0))) goto J5; T = T * 31 + 7; goto L1; J5:; T = T * 31 + 8; goto E3; A3_2:; E3:; if (!(e1 < 7)) goto J6; T = T * 31 + 9; goto L1; J6:; T = T * 31 + 10; N1: n1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r129(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 7, -1, -1, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if ((!(!(a < b)))) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!(!(b >= -1))) goto J5; T = T * 31 + 5; goto N1; J5:; T = T * 31 + 6; goto E3; A3_0:; E3:; if (!(e1 >= 0)) goto J6; T = T * 31 + 7; goto L1; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r130(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 7, 0, -1, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; if ((e1 < 7)) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!((e1) && (b <= 0))) goto J5; T = T * 31 + 5; goto N1; J5:; goto E3; A3_0:; ; T = T * 31 + 6; goto E3; A3_1:; E3:; if (!(p(7, b))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r131(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 1, -1, 0, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (a & 3))) goto L3; w3++; v4 = p(3, a); T = T * 31 + 4; if (!(w3 != -1)) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; goto N3; L3:; if (!(e1)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r132(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 7, -1, 7, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(c < c)) goto J5; T = T * 31 + 5; goto N3; J5:; T = T * 31 + 6; goto N3; L3:; if (!(b < 1)) goto J6; T = T * 31 + 7; return 8; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r133(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 1, 1, 0, 0 }; e1 = t[n1]; } T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 2)) goto L3; T = T * 31 + 4; if (!((e1 == 2) || (i3 < 0))) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; N3: i3 = q(3, i3); goto C3; L3:; T = T * 31 + 6; N1: n1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r134(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 7, -1, 7, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; T = T * 31 + 3; if (!(i3 < 2)) goto J5; T = T * 31 + 4; goto L3; J5:; T = T * 31 + 5; N3: i3++; goto C3; L3:; if (!(c < c)) goto J6; T = T * 31 + 6; return 7; J6:; T = T * 31 + 8; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r135(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, -1, -1, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 1, 1, -1, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(a != 1)) goto J5; T = T * 31 + 4; goto L3; J5:; N3: n3++; goto C3; L3:; if (!((a >= 2) || (a != 2))) goto J6; T = T * 31 + 5; goto N1; J6:; T = T * 31 + 6; N1: n1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r136(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } ; T = T * 31 + 2; s3 = (int)(int8_t)e1; if (s3 == 127) goto S3_0; goto D3; S3_0:; v4 = p(4, a); T = T * 31 + 5; if (!(p(6, e1))) goto J5; T = T * 31 + 7; goto B3; J5:; T = T * 31 + 8; goto B3; D3:; T = T * 31 + 9; ; B3:; if (!(!(a >= 7))) goto J6; T = T * 31 + 10; return 11; J6:; T = T * 31 + 12; N1: n1++; goto C1; L1:; T = T * 31 + 13; return 0; }
static int r137(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { -1, -1, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; s3 = (int)(int8_t)b; if (s3 == 3) goto S3_0; if (s3 == 1) goto S3_0; if (s3 == 7) goto S3_1; if (s3 == 5) goto S3_1; if (s3 == 0) goto S3_1; if (s3 == 4) goto S3_2; goto D3; S3_0:; if (!(b < v2)) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; S3_1:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 6; if (!((b == 7) && (e1 < 7))) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; goto B3; S3_2:; T = T * 31 + 9; goto B3; D3:; T = T * 31 + 10; ; B3:; if (!(b == 2)) goto J7; T = T * 31 + 11; goto L1; J7:; T = T * 31 + 12; N1: n1++; goto C1; L1:; T = T * 31 + 13; return 0; }
static int r138(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(c < c)) goto J5; T = T * 31 + 5; goto L1; J5:; ; if (!(c)) goto J6; T = T * 31 + 6; goto L1; J6:; T = T * 31 + 7; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r139(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; if (!(a)) goto J5; T = T * 31 + 5; return 6; J5:; V3:; if (ex) { T = T * 31 + 7; } T = T * 31 + 8; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r140(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = c; if (s1 == 5) goto S1_0; if (s1 == 1) goto S1_0; if (s1 == 127) goto S1_1; goto D1; S1_0:; if (!((b) || (a < a))) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; D1:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 6; if (!(b < 7)) goto A4_0; T = T * 31 + 7; T = T * 31 + 8; goto E4; A4_0:; E4:; if (!(p(9, b))) goto J6; T = T * 31 + 10; goto B1; J6:; T = T * 31 + 11; ; B1:; T = T * 31 + 12; return 0; }
static int r141(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = p(2, c); if (s1 == 7) goto S1_0; goto D1; S1_0:; v2 = p(3, a); T = T * 31 + 4; if (!(a > 0)) goto A3_0; T = T * 31 + 5; goto E3; A3_0:; ; v4 = p(6, a); T = T * 31 + 7; if (!((v2 >= 2) || (v2 < 2))) goto J5; T = T * 31 + 8; return 9; J5:; goto E3; A3_1:; E3:; if (!(!(a == 1))) goto J6; T = T * 31 + 10; goto B1; J6:; T = T * 31 + 11; goto B1; D1:; T = T * 31 + 12; ; B1:; T = T * 31 + 13; return 0; }
static int r142(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = a; if (s1 == 6) goto S1_0; goto D1; S1_0:; if (!(b >= 2)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; D1:; v3 = p(4, a); T = T * 31 + 5; if (!(a)) goto A4_0; T = T * 31 + 6; goto E4; A4_0:; if (!(c)) goto A4_1; T = T * 31 + 7; goto E4; A4_1:; if (!(v3)) goto A4_2; ; T = T * 31 + 8; if (!(v3)) goto J6; T = T * 31 + 9; goto B1; J6:; T = T * 31 + 10; goto E4; A4_2:; ; T = T * 31 + 11; goto E4; A4_3:; E4:; if (!(!(b < a))) goto J7; T = T * 31 + 12; return 13; J7:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r143(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = b; if (s1 == 4) goto S1_0; if (s1 == 7) goto S1_1; goto D1; S1_0:; if (!(a < a)) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; ; T = T * 31 + 4; if (((b) || (p(5, a)))) goto A4_0; ; T = T * 31 + 6; if (!((b < 2) && (b < b))) goto J6; T = T * 31 + 7; goto B1; J6:; goto E4; A4_0:; E4:; T = T * 31 + 8; goto B1; D1:; T = T * 31 + 9; ; B1:; T = T * 31 + 10; return 0; }
static int r144(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = b; if (s1 == 4) goto S1_0; goto B1; S1_0:; v2 = p(3, a); T = T * 31 + 4; if ((!((v2 != 0) || (b > 7)))) goto A3_0; T = T * 31 + 5; goto E3; A3_0:; ; T = T * 31 + 6; if (!(p(7, c))) goto J5; T = T * 31 + 8; goto B1; J5:; T = T * 31 + 9; goto E3; A3_1:; E3:; if (!(v2 < v2)) goto J6; T = T * 31 + 10; goto B1; J6:; T = T * 31 + 11; goto B1; B1:; T = T * 31 + 12; return 0; }
static int r145(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; s1 = (a & 7); if (s1 == 0) goto S1_0; goto B1; S1_0:; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; ; T = T * 31 + 4; if (!((b) || (w3 > -1))) goto J5; T = T * 31 + 5; goto B1; J5:; T = T * 31 + 6; goto N3; L3:; T = T * 31 + 7; goto B1; B1:; T = T * 31 + 8; return 0; }
static int r146(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, w4 = 0, v5 = 0; T = T * 31 + 1; s1 = (c & 7); if (s1 == 5) goto S1_0; if (s1 == 128) goto S1_1; goto D1; S1_0:; if (!((a < a) && (b != 0))) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; D1:; ; T = T * 31 + 5; w4 = 0; N4: if (w4++ >= 2) goto L4; v5 = 0; T += v5; v5 = 5; T = T * 31 + 6; if (!(w4)) goto J6; T = T * 31 + 7; goto N4; J6:; T = T * 31 + 8; goto N4; L4:; if (!(b <= -1)) goto J7; T = T * 31 + 9; goto B1; J7:; T = T * 31 + 10; ; B1:; T = T * 31 + 11; return 0; }
static int r147(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, i4 = 0, v5 = 0; T = T * 31 + 1; s1 = b; if (s1 == 127) goto S1_0; if (s1 == 2147483647) goto S1_0; goto D1; S1_0:; if (!(c < 1)) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; D1:; T = T * 31 + 4; i4 = 0; C4: if (!(i4 < (b & 1))) goto L4; ; T = T * 31 + 6; if (!((c >= -1) && (i4 == 1))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; N4: i4 = q(5, i4); goto C4; L4:; if (!(p(9, a))) goto J7; T = T * 31 + 10; goto B1; J7:; ; B1:; T = T * 31 + 11; return 0; }
static int r148(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; s1 = a; if (s1 == 4) goto S1_0; if (s1 == 3) goto S1_1; goto D1; S1_0:; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; i3 = 0; C3: if (i3 > 1) goto L3; T = T * 31 + 4; if (!(p(5, a))) goto J5; T = T * 31 + 6; goto B1; J5:; T = T * 31 + 7; N3: i3++; goto C3; L3:; T = T * 31 + 8; goto B1; S1_1:; T = T * 31 + 9; goto B1; D1:; T = T * 31 + 10; ; B1:; T = T * 31 + 11; return 0; }
static int r149(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, e4 = 0, n4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, b); if (s1 == 5) goto S1_0; if (s1 == 0) goto S1_1; if (s1 == 2) goto S1_2; goto B1; S1_0:; if (!((b >= 2) && (b != 0))) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; n4 = 0; C4: if (!(n4 < 3)) goto L4; { static const int t[] = { 0, -1, 1, 0 }; e4 = t[n4]; } ; T = T * 31 + 6; if (!((b < c) || (a < 0))) goto J6; T = T * 31 + 7; goto L4; J6:; T = T * 31 + 8; N4: n4++; goto C4; L4:; if (!(c < c)) goto J7; T = T * 31 + 9; goto B1; J7:; T = T * 31 + 10; goto B1; S1_2:; T = T * 31 + 11; goto B1; B1:; T = T * 31 + 12; return 0; }
static int r150(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, c); if (s1 == 2) goto S1_0; if (s1 == -129) goto S1_1; goto B1; S1_0:; ; T = T * 31 + 3; s3 = (b & 7); if (s3 == 127) goto S3_0; goto D3; S3_0:; if (!(p(5, a))) goto J4; T = T * 31 + 6; goto B3; J4:; goto B3; D3:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 7; if (!((c < -1) && (a != 7))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; T = T * 31 + 9; ; B3:; if (!((a) || (c < b))) goto J7; T = T * 31 + 10; goto B1; J7:; T = T * 31 + 11; goto B1; S1_1:; T = T * 31 + 12; goto B1; B1:; T = T * 31 + 13; return 0; }
static int r151(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; s1 = (b & 7); if (s1 == 1) goto S1_0; goto B1; S1_0:; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; s3 = b; if (s3 == 2147483647) goto S3_0; if (s3 == 127) goto S3_1; if (s3 == INT32_MIN) goto S3_2; if (s3 == 1) goto S3_3; if (s3 == -128) goto S3_3; if (s3 == -129) goto S3_4; goto D3; S3_0:; if (!(!(c))) goto J4; T = T * 31 + 5; return 6; J4:; goto B3; S3_1:; T = T * 31 + 7; goto B3; S3_2:; T = T * 31 + 8; goto B3; S3_3:; v5 = p(9, a); T = T * 31 + 10; if (!(p(11, a))) goto J6; T = T * 31 + 12; return 13; J6:; T = T * 31 + 14; goto B3; S3_4:; T = T * 31 + 15; goto B3; D3:; T = T * 31 + 16; ; B3:; goto B1; B1:; T = T * 31 + 17; return 0; }
static int r152(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = b; if (s1 == 1) goto S1_0; if (s1 == 0) goto S1_0; if (s1 == 3) goto S1_0; goto D1; S1_0:; v2 = p(3, a); T = T * 31 + 4; ; T = T * 31 + 5; if (!(v2 == 7)) goto J5; T = T * 31 + 6; goto B1; J5:; ; if (!(v2 != 1)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; goto B1; D1:; T = T * 31 + 9; ; B1:; T = T * 31 + 10; return 0; }
static int r153(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = p(2, a); if (s1 == 2) goto S1_0; if (s1 == 5) goto S1_0; goto B1; S1_0:; v2 = p(3, a); T = T * 31 + 4; ex = 0; v4 = p(5, a); T = T * 31 + 6; if (!(!(c >= 7))) goto J5; T = T * 31 + 7; { ex = 1; goto V3; } J5:; T = T * 31 + 8; V3:; if (ex) { T = T * 31 + 9; } if (!(c)) goto J6; T = T * 31 + 10; goto B1; J6:; T = T * 31 + 11; goto B1; B1:; T = T * 31 + 12; return 0; }
static int r154(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)c; if (s1 == 0) goto S1_0; if (s1 == INT32_MIN) goto S1_1; if (s1 == 127) goto S1_2; if (s1 == 97) goto S1_3; if (s1 == -128) goto S1_4; if (s1 == 2) goto S1_4; if (s1 == -129) goto S1_4; goto D1; S1_0:; if (!((a <= 7) || (c == 0))) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; ; T = T * 31 + 7; if (!(p(8, a))) goto A4_0; T = T * 31 + 9; if (!(b >= 7)) goto J6; T = T * 31 + 10; return 11; J6:; goto E4; A4_0:; E4:; if (!(c)) goto J7; T = T * 31 + 12; return 13; J7:; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r155(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, b); if (s1 == -1) goto S1_0; if (s1 == 97) goto S1_1; if (s1 == 1) goto S1_2; if (s1 == -129) goto S1_3; if (s1 == INT32_MIN) goto S1_3; if (s1 == 2) goto S1_4; goto D1; S1_0:; if (!(!(a < a))) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; v3 = p(6, a); T = T * 31 + 7; if (!(p(8, a))) goto A4_0; T = T * 31 + 9; goto E4; A4_0:; ; v5 = 0; T += v5; v5 = 5; T = T * 31 + 10; if (!(a > 1)) goto J6; T = T * 31 + 11; goto B1; J6:; goto E4; A4_1:; E4:; if (!(!(v3 > 0))) goto J7; T = T * 31 + 12; { *err = 1; return 0; } J7:; goto B1; S1_4:; T = T * 31 + 13; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r156(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, c); if (s1 == 2) goto S1_0; if (s1 == 5) goto S1_1; if (s1 == 1) goto S1_2; if (s1 == 3) goto S1_3; if (s1 == 6) goto S1_4; if (s1 == 4) goto S1_5; goto D1; S1_0:; if (!(a >= 0)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; v3 = p(5, a); T = T * 31 + 6; if (!((a >= 2) && (!(b)))) goto A4_0; v5 = p(7, a); T = T * 31 + 8; if (!(v5 < v3)) goto J6; T = T * 31 + 9; return 10; J6:; T = T * 31 + 11; goto E4; A4_0:; if (!(v3 >= 1)) goto A4_1; T = T * 31 + 12; goto E4; A4_1:; if (!(p(13, c))) goto A4_2; T = T * 31 + 14; goto E4; A4_2:; ; T = T * 31 + 15; goto E4; A4_3:; E4:; if (!((b < -1) || (c <= -1))) goto J7; T = T * 31 + 16; return 17; J7:; goto B1; S1_3:; T = T * 31 + 18; goto B1; S1_4:; T = T * 31 + 19; goto B1; S1_5:; T = T * 31 + 20; goto B1; D1:; T = T * 31 + 21; ; B1:; T = T * 31 + 22; return 0; }
static int r157(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = (c & 7); if (s1 == 128) goto S1_0; if (s1 == 127) goto S1_0; if (s1 == -128) goto S1_0; if (s1 == -1) goto S1_1; if (s1 == -7) goto S1_1; if (s1 == 2147483647) goto S1_1; goto D1; S1_0:; ; T = T * 31 + 3; if ((!(c < b))) goto A3_0; v4 = p(4, a); T = T * 31 + 5; if (!(c)) goto J5; T = T * 31 + 6; goto B1; J5:; T = T * 31 + 7; goto E3; A3_0:; E3:; if (!((c >= 2) && (b > 1))) goto J6; T = T * 31 + 8; goto B1; J6:; goto B1; S1_1:; T = T * 31 + 9; goto B1; D1:; T = T * 31 + 10; ; B1:; T = T * 31 + 11; return 0; }
static int r158(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = (b & 7); if (s1 == INT32_MIN) goto S1_0; if (s1 == 2) goto S1_1; if (s1 == 127) goto S1_2; if (s1 == 1000000) goto S1_3; if (s1 == -128) goto S1_4; if (s1 == 1) goto S1_5; if (s1 == 0) goto S1_6; if (s1 == -129) goto S1_6; if (s1 == -1) goto S1_6; goto B1; S1_0:; if (!(a < -1)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; if (((!(c < 1)) || ((b) && (a < a)))) goto A4_0; ; T = T * 31 + 7; if (!(p(8, b))) goto J6; T = T * 31 + 9; goto B1; J6:; T = T * 31 + 10; goto E4; A4_0:; ; T = T * 31 + 11; goto E4; A4_1:; E4:; if (!(c < b)) goto J7; T = T * 31 + 12; goto B1; J7:; T = T * 31 + 13; goto B1; S1_4:; T = T * 31 + 14; goto B1; S1_5:; T = T * 31 + 15; goto B1; S1_6:; T = T * 31 + 16; goto B1; B1:; T = T * 31 + 17; return 0; }
static int r159(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, w4 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)a; if (s1 == 5) goto S1_0; if (s1 == 7) goto S1_1; if (s1 == 4) goto S1_2; if (s1 == 3) goto S1_3; if (s1 == 1) goto S1_4; if (s1 == 2) goto S1_5; if (s1 == 6) goto S1_6; if (s1 == 0) goto S1_7; goto D1; S1_0:; if (!(b < c)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; T = T * 31 + 7; goto B1; S1_5:; T = T * 31 + 8; goto B1; S1_6:; T = T * 31 + 9; goto B1; S1_7:; T = T * 31 + 10; goto B1; D1:; ; T = T * 31 + 11; w4 = 0; N4: if (!(w4 < (c & 3))) goto L4; w4++; v5 = p(12, a); T = T * 31 + 13; if (!(a > 0)) goto J6; T = T * 31 + 14; goto L4; J6:; T = T * 31 + 15; goto N4; L4:; if (!((a != -1) || (a == 0))) goto J7; T = T * 31 + 16; return 17; J7:; ; B1:; T = T * 31 + 18; return 0; }
static int r160(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, w4 = 0, v5 = 0; T = T * 31 + 1; s1 = (c & 7); if (s1 == 1000000) goto S1_0; if (s1 == 5) goto S1_1; if (s1 == 0) goto S1_2; if (s1 == 128) goto S1_3; if (s1 == 2147483647) goto S1_3; if (s1 == 1) goto S1_3; if (s1 == -129) goto S1_4; if (s1 == -1) goto S1_5; if (s1 == -128) goto S1_5; goto D1; S1_0:; if (!(b > 0)) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; T = T * 31 + 7; goto B1; S1_5:; ; T = T * 31 + 8; w4 = 0; N4: if (w4++ >= 2) goto L4; ; T = T * 31 + 9; if (!((a < a) || (w4 < 1))) goto J6; T = T * 31 + 10; goto B1; J6:; T = T * 31 + 11; goto N4; L4:; if (!((a >= 0) && (a > -1))) goto J7; T = T * 31 + 12; goto B1; J7:; goto B1; D1:; T = T * 31 + 13; ; B1:; T = T * 31 + 14; return 0; }
static int r161(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; s1 = (a & 7); if (s1 == 128) goto S1_0; if (s1 == INT32_MIN) goto S1_0; if (s1 == -129) goto S1_0; if (s1 == 5) goto S1_1; if (s1 == -7) goto S1_2; if (s1 == -128) goto S1_3; if (s1 == 127) goto S1_4; if (s1 == 0) goto S1_5; if (s1 == 2147483647) goto S1_5; goto D1; S1_0:; ; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; ; T = T * 31 + 5; if (!(i3)) goto J5; T = T * 31 + 6; goto B1; J5:; N3: i3 = q(4, i3); goto C3; L3:; if (!(c)) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; goto B1; S1_1:; T = T * 31 + 10; goto B1; S1_2:; T = T * 31 + 11; goto B1; S1_3:; T = T * 31 + 12; goto B1; S1_4:; T = T * 31 + 13; goto B1; S1_5:; T = T * 31 + 14; goto B1; D1:; T = T * 31 + 15; ; B1:; T = T * 31 + 16; return 0; }
static int r162(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, i4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, c); if (s1 == -129) goto S1_0; if (s1 == 1000000) goto S1_1; if (s1 == 128) goto S1_2; if (s1 == 2147483647) goto S1_3; if (s1 == INT32_MIN) goto S1_4; if (s1 == 5) goto S1_4; goto D1; S1_0:; if (!((c >= 0) || (b > -1))) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; v3 = p(7, a); T = T * 31 + 8; i4 = 0; C4: if (i4 > 1) goto L4; ; T = T * 31 + 9; if (!(c >= 2)) goto J6; T = T * 31 + 10; { *err = 1; return 0; } J6:; N4: i4++; goto C4; L4:; if (!(c < a)) goto J7; T = T * 31 + 11; { *err = 1; return 0; } J7:; goto B1; D1:; T = T * 31 + 12; ; B1:; T = T * 31 + 13; return 0; }
static int r163(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; s1 = (int)(int8_t)a; if (s1 == 5) goto S1_0; if (s1 == -7) goto S1_1; if (s1 == 127) goto S1_1; if (s1 == INT32_MIN) goto S1_2; if (s1 == 128) goto S1_2; if (s1 == 2147483647) goto S1_2; if (s1 == 0) goto S1_3; if (s1 == -128) goto S1_4; goto D1; S1_0:; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, 1, -1, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(b < a)) goto J5; T = T * 31 + 5; goto N3; J5:; N3: n3++; goto C3; L3:; if (!((a) || (a >= -1))) goto J6; T = T * 31 + 6; return 7; J6:; T = T * 31 + 8; goto B1; S1_1:; T = T * 31 + 9; goto B1; S1_2:; T = T * 31 + 10; goto B1; S1_3:; T = T * 31 + 11; goto B1; S1_4:; T = T * 31 + 12; goto B1; D1:; T = T * 31 + 13; ; B1:; T = T * 31 + 14; return 0; }
static int r164(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, s4 = 0, v6 = 0; T = T * 31 + 1; s1 = a; if (s1 == -1) goto S1_0; if (s1 == 127) goto S1_0; if (s1 == INT32_MIN) goto S1_0; if (s1 == 1000000) goto S1_1; if (s1 == 5) goto S1_1; if (s1 == 128) goto S1_2; if (s1 == 97) goto S1_3; goto B1; S1_0:; if (!(a < c)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; ; T = T * 31 + 6; s4 = p(7, b); if (s4 == -1) goto S4_0; if (s4 == 1) goto S4_1; if (s4 == 1000000) goto S4_1; goto D4; S4_0:; if (!(p(8, a))) goto J5; T = T * 31 + 9; { *err = 1; return 0; } J5:; goto B4; S4_1:; v6 = 0; T += v6; v6 = 5; T = T * 31 + 10; if (!(c)) goto J7; T = T * 31 + 11; return 12; J7:; goto B4; D4:; T = T * 31 + 13; ; B4:; if (!(a < c)) goto J8; T = T * 31 + 14; goto B1; J8:; goto B1; B1:; T = T * 31 + 15; return 0; }
static int r165(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, s4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, a); if (s1 == 6) goto S1_0; if (s1 == 0) goto S1_1; if (s1 == 3) goto S1_1; if (s1 == 2) goto S1_2; if (s1 == 1) goto S1_3; if (s1 == 7) goto S1_4; if (s1 == 4) goto S1_4; goto D1; S1_0:; if (!((a > 2) && (a < a))) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 4; s4 = c; if (s4 == 1) goto S4_0; if (s4 == 0) goto S4_1; if (s4 == -128) goto S4_1; if (s4 == 1000000) goto S4_1; if (s4 == -1) goto S4_2; if (s4 == 2) goto S4_2; if (s4 == 2147483647) goto S4_2; if (s4 == 5) goto S4_3; if (s4 == 128) goto S4_4; goto B4; S4_0:; v5 = p(6, a); T = T * 31 + 7; if (!((c < 0) && (a > -1))) goto J6; T = T * 31 + 8; return 9; J6:; goto B4; S4_1:; T = T * 31 + 10; goto B4; S4_2:; T = T * 31 + 11; goto B4; S4_3:; T = T * 31 + 12; goto B4; S4_4:; T = T * 31 + 13; goto B4; B4:; if (!((b == -1) || (a < 7))) goto J7; T = T * 31 + 14; goto B1; J7:; T = T * 31 + 15; goto B1; S1_2:; T = T * 31 + 16; goto B1; S1_3:; T = T * 31 + 17; goto B1; S1_4:; T = T * 31 + 18; goto B1; D1:; T = T * 31 + 19; ; B1:; T = T * 31 + 20; return 0; }
static int r166(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = a; if (s1 == 6) goto S1_0; if (s1 == 7) goto S1_1; if (s1 == 0) goto S1_2; if (s1 == 4) goto S1_3; if (s1 == 1) goto S1_4; if (s1 == 2) goto S1_5; if (s1 == 3) goto S1_5; goto D1; S1_0:; if (!(a == 7)) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; v3 = p(7, a); T = T * 31 + 8; ; v5 = p(9, a); T = T * 31 + 10; T = T * 31 + 11; ; if (!(v3 != 0)) goto J6; T = T * 31 + 12; return 13; J6:; T = T * 31 + 14; goto B1; S1_5:; T = T * 31 + 15; goto B1; D1:; T = T * 31 + 16; ; B1:; T = T * 31 + 17; return 0; }
static int r167(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = c; if (s1 == 97) goto S1_0; if (s1 == 2) goto S1_0; if (s1 == -1) goto S1_0; if (s1 == -129) goto S1_1; if (s1 == 2147483647) goto S1_2; if (s1 == 127) goto S1_3; if (s1 == INT32_MIN) goto S1_4; if (s1 == 1000000) goto S1_4; if (s1 == 0) goto S1_4; goto B1; S1_0:; if (!(b > 2)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; ; T = T * 31 + 6; ex = 0; T = T * 31 + 7; if (!(b != -1)) goto J6; T = T * 31 + 8; goto B1; J6:; V4:; if (ex) { T = T * 31 + 9; } if (!(a != 7)) goto J7; T = T * 31 + 10; return 11; J7:; goto B1; S1_4:; T = T * 31 + 12; goto B1; B1:; T = T * 31 + 13; return 0; }
static int r168(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ; v2 = p(2, a); T = T * 31 + 3; if (!(((c) && (b <= 0)) && (v2 != -1))) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(!(c < a))) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; goto E3; A3_0:; E3:; if (!(v2 > 7)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; ; T = T * 31 + 8; return 0; }
static int r169(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ; v2 = p(2, a); T = T * 31 + 3; if (!(c != 2)) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; ; v4 = p(5, a); T = T * 31 + 6; if (!(b > 7)) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; goto E3; A3_1:; E3:; if (!(c)) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; ; T = T * 31 + 11; return 0; }
static int r170(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ; T = T * 31 + 2; if (!(c > 2)) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; if (!(b != 1)) goto A3_1; T = T * 31 + 4; goto E3; A3_1:; if (!(a)) goto A3_2; T = T * 31 + 5; goto E3; A3_2:; ; ; T = T * 31 + 6; if (!(c)) goto J5; T = T * 31 + 7; return 8; J5:; goto E3; A3_3:; E3:; if (!(!(a < b))) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; ; T = T * 31 + 10; return 0; }
static int r171(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ; v2 = p(2, a); T = T * 31 + 3; if ((b < c)) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; T = T * 31 + 5; goto E3; A3_0:; E3:; if (!(b > 2)) goto J5; T = T * 31 + 6; return 7; J5:; ; T = T * 31 + 8; return 0; }
static int r172(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ; v2 = p(2, a); T = T * 31 + 3; if ((c)) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; ; T = T * 31 + 5; if (!(!(a >= -1))) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; goto E3; A3_1:; E3:; if (!(b)) goto J6; T = T * 31 + 9; return 10; J6:; ; T = T * 31 + 11; return 0; }
static int r173(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(a)) goto J5; T = T * 31 + 4; goto N3; J5:; T = T * 31 + 5; goto N3; L3:; if (!(!(c < a))) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; ; T = T * 31 + 7; return 0; }
static int r174(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; ; T = T * 31 + 3; if (!(b < a)) goto J5; T = T * 31 + 4; goto N3; J5:; goto N3; L3:; if (!(a < c)) goto J6; T = T * 31 + 5; return 6; J6:; ; T = T * 31 + 7; return 0; }
static int r175(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 2)) goto L3; ; T = T * 31 + 4; if (!(!(i3 == 0))) goto J5; T = T * 31 + 5; goto L3; J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(b < b)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; ; T = T * 31 + 7; return 0; }
static int r176(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ; ; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; T = T * 31 + 3; if (!(p(4, b))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; N3: i3++; goto C3; L3:; if (!(c < c)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; ; T = T * 31 + 9; return 0; }
static int r177(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 1, 7, -1, 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; if (!(e3)) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; T = T * 31 + 7; ; T = T * 31 + 8; return 0; }
static int r178(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; ; ; T = T * 31 + 2; s3 = a; if (s3 == 6) goto S3_0; if (s3 == 1) goto S3_1; goto D3; S3_0:; ; T = T * 31 + 4; if (!(a < a)) goto J5; T = T * 31 + 5; return 6; J5:; goto B3; S3_1:; T = T * 31 + 7; goto B3; D3:; T = T * 31 + 8; ; B3:; T = T * 31 + 9; ; T = T * 31 + 10; return 0; }
static int r179(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; ; ; T = T * 31 + 2; s3 = a; if (s3 == 128) goto S3_0; if (s3 == 1) goto S3_0; if (s3 == 0) goto S3_1; if (s3 == 2147483647) goto S3_1; if (s3 == -1) goto S3_1; if (s3 == 127) goto S3_2; if (s3 == 1000000) goto S3_2; goto B3; S3_0:; if (!(p(4, a))) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; S3_2:; T = T * 31 + 7; T = T * 31 + 8; goto B3; B3:; if (!(b < b)) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; T = T * 31 + 10; ; T = T * 31 + 11; return 0; }
static int r180(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(b)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; ; if (!(b)) goto J6; T = T * 31 + 5; return 6; J6:; T = T * 31 + 7; ; T = T * 31 + 8; return 0; }
static int r181(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; if (!(!(c >= 2))) goto J5; T = T * 31 + 5; return 6; J5:; V3:; if (ex) { T = T * 31 + 7; } if (!(b == 1)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; ; T = T * 31 + 9; return 0; }
static int r182(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(c < 2)) goto A3_0; ; T = T * 31 + 3; T = T * 31 + 4; goto E3; A3_0:; E3:; if (!(a == -1)) goto J5; T = T * 31 + 5; return 6; J5:; V1:; if (ex) { T = T * 31 + 7; } T = T * 31 + 8; return 0; }
static int r183(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; if (!(!(!(b)))) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(!(b != 0))) goto J5; T = T * 31 + 5; { ex = 1; goto V1; } J5:; T = T * 31 + 6; goto E3; A3_0:; ; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!((a < c) && (a > 7))) goto J6; T = T * 31 + 8; { ex = 1; goto V1; } J6:; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r184(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!((p(3, c)) || (a <= 1))) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; if (!((a) || (b < c))) goto A3_1; T = T * 31 + 5; goto E3; A3_1:; ; T = T * 31 + 6; if (!((b <= 1) && (a != 7))) goto J5; T = T * 31 + 7; { ex = 1; goto V1; } J5:; T = T * 31 + 8; goto E3; A3_2:; E3:; if (!(c >= 1)) goto J6; T = T * 31 + 9; return 10; J6:; V1:; if (ex) { T = T * 31 + 11; } T = T * 31 + 12; return 0; }
static int r185(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; if ((v2 > 0)) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!((a) || (c > -1))) goto J5; T = T * 31 + 5; { ex = 1; goto V1; } J5:; T = T * 31 + 6; goto E3; A3_0:; E3:; if (!((c < 0) && (a <= 1))) goto J6; T = T * 31 + 7; return 8; J6:; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r186(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; if ((b <= 7)) goto A3_0; T = T * 31 + 4; goto E3; A3_0:; ; ; T = T * 31 + 5; if (!(v2 <= -1)) goto J5; T = T * 31 + 6; { ex = 1; goto V1; } J5:; T = T * 31 + 7; goto E3; A3_1:; E3:; if (!(!(v2 < 7))) goto J6; T = T * 31 + 8; { ex = 1; goto V1; } J6:; T = T * 31 + 9; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r187(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(p(4, c))) goto J5; T = T * 31 + 5; goto L3; J5:; goto N3; L3:; if (!(a == 7)) goto J6; T = T * 31 + 6; { ex = 1; goto V1; } J6:; T = T * 31 + 7; V1:; if (ex) { T = T * 31 + 8; } T = T * 31 + 9; return 0; }
static int r188(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!(v4 > 0)) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; goto N3; L3:; if (!(a)) goto J6; T = T * 31 + 7; { ex = 1; goto V1; } J6:; T = T * 31 + 8; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r189(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 3)) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(b)) goto J5; T = T * 31 + 6; goto N3; J5:; T = T * 31 + 7; N3: i3 = q(3, i3); goto C3; L3:; if (!((a < c) || (a < c))) goto J6; T = T * 31 + 8; { ex = 1; goto V1; } J6:; T = T * 31 + 9; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r190(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; T = T * 31 + 3; if (!(i3 <= 0)) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; N3: i3++; goto C3; L3:; if (!(b >= 0)) goto J6; T = T * 31 + 7; return 8; J6:; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r191(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, -1, 7, 0 }; e3 = t[n3]; } T = T * 31 + 4; if (!(v2 < b)) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; if (!(v2 >= 1)) goto J6; T = T * 31 + 7; { ex = 1; goto V1; } J6:; T = T * 31 + 8; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r192(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; s3 = (int)(int8_t)a; if (s3 == 0) goto S3_0; if (s3 == 1) goto S3_1; if (s3 == 128) goto S3_1; goto D3; S3_0:; if (!(p(4, b))) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; D3:; ; T = T * 31 + 7; if (!(a < 0)) goto J6; T = T * 31 + 8; goto B3; J6:; T = T * 31 + 9; ; B3:; if (!((b) && (a > 0))) goto J7; T = T * 31 + 10; return 11; J7:; T = T * 31 + 12; V1:; if (ex) { T = T * 31 + 13; } T = T * 31 + 14; return 0; }
static int r193(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (c & 7); if (s3 == 5) goto S3_0; if (s3 == 3) goto S3_1; if (s3 == 6) goto S3_2; if (s3 == 7) goto S3_2; if (s3 == 1) goto S3_3; if (s3 == 2) goto S3_4; if (s3 == 0) goto S3_4; goto D3; S3_0:; v4 = p(4, a); T = T * 31 + 5; T = T * 31 + 6; goto B3; S3_1:; T = T * 31 + 7; goto B3; S3_2:; T = T * 31 + 8; goto B3; S3_3:; T = T * 31 + 9; goto B3; S3_4:; T = T * 31 + 10; goto B3; D3:; T = T * 31 + 11; ; B3:; if (!(p(12, b))) goto J5; T = T * 31 + 13; { ex = 1; goto V1; } J5:; T = T * 31 + 14; V1:; if (ex) { T = T * 31 + 15; } T = T * 31 + 16; return 0; }
static int r194(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(c)) goto J5; T = T * 31 + 4; { ex = 1; goto V1; } J5:; T = T * 31 + 5; ; if (!(c)) goto J6; T = T * 31 + 6; { ex = 1; goto V1; } J6:; V1:; if (ex) { T = T * 31 + 7; } T = T * 31 + 8; return 0; }
static int r195(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; ; T = T * 31 + 3; if (!(!(a >= 1))) goto J5; T = T * 31 + 4; { ex = 1; goto V3; } J5:; V3:; if (ex) { T = T * 31 + 5; } V1:; if (ex) { T = T * 31 + 6; } T = T * 31 + 7; return 0; }
static int r196(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; ; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < 3)) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(i3 == 7)) goto J5; T = T * 31 + 6; goto N3; J5:; T = T * 31 + 7; N3: i3 = q(4, i3); goto C3; L3:; if (!(p(8, b))) goto J6; T = T * 31 + 9; goto N1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r197(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; T = T * 31 + 3; s3 = p(4, a); if (s3 == 0) goto S3_0; if (s3 == 7) goto S3_0; if (s3 == 2) goto S3_0; goto B3; S3_0:; T = T * 31 + 5; if (!((c) && (c != 2))) goto J5; T = T * 31 + 6; goto N1; J5:; T = T * 31 + 7; goto B3; B3:; if (!((b) && (c))) goto J6; T = T * 31 + 8; goto N1; J6:; T = T * 31 + 9; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r198(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; T = T * 31 + 3; ex = 0; v4 = p(4, a); T = T * 31 + 5; if (!(c > 7)) goto J5; T = T * 31 + 6; goto N1; J5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } if (!((i1 <= 7) && (i1))) goto J6; T = T * 31 + 9; goto N1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r199(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; ; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(c >= -1)) goto J5; T = T * 31 + 5; goto N3; J5:; goto N3; L3:; if (!(i1 < i1)) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r200(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; v2 = p(3, a); T = T * 31 + 4; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, 7, 7, 0 }; e3 = t[n3]; } T = T * 31 + 5; if (!((i1 < v2) && (i1 <= -1))) goto J5; T = T * 31 + 6; goto N3; J5:; N3: n3++; goto C3; L3:; if (!(b < 0)) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r201(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; T = T * 31 + 3; ; T = T * 31 + 4; if (!(p(5, b))) goto J5; T = T * 31 + 6; goto N1; J5:; ; if (!(i1 <= 2)) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r202(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; ; T = T * 31 + 4; if (!(i3 < i3)) goto J5; T = T * 31 + 5; goto N3; J5:; T = T * 31 + 6; N3: i3 = q(3, i3); goto C3; L3:; if (!(!(a == 0))) goto J6; T = T * 31 + 7; goto N1; J6:; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r203(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (b & 7); if (s3 == 6) goto S3_0; goto D3; S3_0:; if (!(c)) goto J4; T = T * 31 + 4; goto N1; J4:; goto B3; D3:; ; T = T * 31 + 5; if (!((w1 < 2) && (b))) goto J6; T = T * 31 + 6; goto N1; J6:; ; B3:; if (!((w1 <= 0) || (w1))) goto J7; T = T * 31 + 7; goto N1; J7:; T = T * 31 + 8; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r204(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((b < b) && (a >= 1))) goto J5; T = T * 31 + 4; goto N1; J5:; V3:; if (ex) { T = T * 31 + 5; } if (!(!(a < c))) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r205(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(3, a); T = T * 31 + 4; T = T * 31 + 5; goto N3; L3:; if (!(b)) goto J5; T = T * 31 + 6; goto N1; J5:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r206(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { 0, 7, 0 }; e3 = t[n3]; } ; T = T * 31 + 3; if (!(a < 2)) goto J5; T = T * 31 + 4; goto N3; J5:; T = T * 31 + 5; N3: n3++; goto C3; L3:; if (!(w1)) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r207(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; ; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((c) && (c))) goto J5; T = T * 31 + 4; goto N1; J5:; T = T * 31 + 5; ; if (!(p(6, b))) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r208(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(b < 1)) goto J5; T = T * 31 + 5; goto N3; J5:; N3: i3 = q(3, i3); goto C3; L3:; T = T * 31 + 6; N1: n1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r209(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, -1, 1, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (c & 7); if (s3 == 5) goto S3_0; if (s3 == 1) goto S3_1; goto B3; S3_0:; if (!(!(a == 2))) goto J4; T = T * 31 + 4; goto N1; J4:; goto B3; S3_1:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 5; if (!(b)) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; goto B3; B3:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r210(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 1, 0, 7, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; ex = 0; ; T = T * 31 + 4; if (!(e1 < 1)) goto J5; T = T * 31 + 5; goto N1; J5:; V3:; if (ex) { T = T * 31 + 6; } if (!(!(v2 > 1))) goto J6; T = T * 31 + 7; goto N1; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r211(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, 0, 7, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; ; T = T * 31 + 3; T = T * 31 + 4; goto N3; L3:; if (!(c == -1)) goto J5; T = T * 31 + 5; goto N1; J5:; T = T * 31 + 6; N1: n1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r212(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { -1, 1, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 0)) goto L3; { static const int t[] = { 0 }; e3 = t[n3]; } ; T = T * 31 + 4; if (!(v2 < b)) goto J5; T = T * 31 + 5; goto N3; J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; if (!(!(v2))) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r213(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { -1, 7, -1, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; ; T = T * 31 + 3; if (!(b)) goto J5; T = T * 31 + 4; goto N1; J5:; ; if (!((a <= 7) || (a >= 2))) goto J6; T = T * 31 + 5; goto N1; J6:; T = T * 31 + 6; N1: n1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r214(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, i4 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)a; if (s1 == 0) goto S1_0; if (s1 == 5) goto S1_0; if (s1 == 3) goto S1_0; if (s1 == 6) goto S1_1; if (s1 == 7) goto S1_2; if (s1 == 2) goto S1_3; goto D1; S1_0:; if (!(b)) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; T = T * 31 + 6; goto B1; S1_3:; v3 = p(7, a); T = T * 31 + 8; i4 = 0; C4: if (!(i4 < 2)) goto L4; T = T * 31 + 10; if (!(!(a >= 7))) goto J6; T = T * 31 + 11; goto N4; J6:; N4: i4 = q(9, i4); goto C4; L4:; if (!((b < a) || (b))) goto J7; T = T * 31 + 12; goto B1; J7:; goto B1; D1:; T = T * 31 + 13; ; B1:; T = T * 31 + 14; return 0; }
static int r215(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, s4 = 0, v6 = 0; T = T * 31 + 1; s1 = (a & 7); if (s1 == 1000000) goto S1_0; if (s1 == -1) goto S1_1; if (s1 == -128) goto S1_1; if (s1 == 0) goto S1_2; if (s1 == 2147483647) goto S1_3; if (s1 == -7) goto S1_4; if (s1 == 5) goto S1_5; if (s1 == 127) goto S1_5; if (s1 == 128) goto S1_6; goto B1; S1_0:; if (!(c < c)) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; T = T * 31 + 7; goto B1; S1_5:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 8; s4 = (c & 7); if (s4 == 2) goto S4_0; if (s4 == 5) goto S4_1; goto D4; S4_0:; if (!(!(c))) goto J5; T = T * 31 + 10; return 11; J5:; goto B4; S4_1:; T = T * 31 + 12; goto B4; D4:; T = T * 31 + 13; if (!(p(14, b))) goto J7; T = T * 31 + 15; goto B4; J7:; ; B4:; if (!((a >= -1) && (a))) goto J8; T = T * 31 + 16; { *err = 1; return 0; } J8:; goto B1; S1_6:; T = T * 31 + 17; goto B1; B1:; T = T * 31 + 18; return 0; }
static int r216(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = (b & 7); if (s1 == 3) goto S1_0; if (s1 == 0) goto S1_0; if (s1 == 2) goto S1_0; if (s1 == 1) goto S1_1; if (s1 == 5) goto S1_1; if (s1 == 7) goto S1_1; if (s1 == 4) goto S1_2; if (s1 == 6) goto S1_2; goto D1; S1_0:; ; T = T * 31 + 3; ex = 0; v4 = p(4, a); T = T * 31 + 5; if (!(v4 <= 2)) goto J5; T = T * 31 + 6; goto B1; J5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } if (!(p(9, c))) goto J6; T = T * 31 + 10; return 11; J6:; goto B1; S1_1:; T = T * 31 + 12; goto B1; S1_2:; T = T * 31 + 13; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r217(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, w4 = 0, v5 = 0; T = T * 31 + 1; s1 = (b & 7); if (s1 == 5) goto S1_0; if (s1 == 2) goto S1_1; if (s1 == 1) goto S1_1; if (s1 == 0) goto S1_1; if (s1 == 6) goto S1_2; if (s1 == 7) goto S1_3; if (s1 == 4) goto S1_4; if (s1 == 3) goto S1_4; goto B1; S1_0:; if (!((b != 1) && (a))) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 6; w4 = 0; N4: if (w4++ >= 2) goto L4; T = T * 31 + 7; if (!(a != 0)) goto J6; T = T * 31 + 8; goto N4; J6:; goto N4; L4:; if (!(p(9, a))) goto J7; T = T * 31 + 10; goto B1; J7:; goto B1; S1_4:; T = T * 31 + 11; goto B1; B1:; T = T * 31 + 12; return 0; }
static int r218(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, e4 = 0, n4 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)c; if (s1 == 2147483647) goto S1_0; if (s1 == -128) goto S1_0; if (s1 == -7) goto S1_0; if (s1 == INT32_MIN) goto S1_1; if (s1 == 127) goto S1_2; if (s1 == 97) goto S1_3; if (s1 == 2) goto S1_4; if (s1 == 5) goto S1_5; goto D1; S1_0:; if (!(a < 7)) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 5; n4 = 0; C4: if (!(n4 < 0)) goto L4; { static const int t[] = { 0 }; e4 = t[n4]; } v5 = 0; T += v5; v5 = 5; T = T * 31 + 6; if (!(!(b == -1))) goto J6; T = T * 31 + 7; goto N4; J6:; N4: n4++; goto C4; L4:; goto B1; S1_3:; T = T * 31 + 8; goto B1; S1_4:; T = T * 31 + 9; goto B1; S1_5:; T = T * 31 + 10; goto B1; D1:; T = T * 31 + 11; ; B1:; T = T * 31 + 12; return 0; }
static int r219(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = (c & 7); if (s1 == -7) goto S1_0; if (s1 == 0) goto S1_0; if (s1 == -128) goto S1_1; if (s1 == -129) goto S1_1; if (s1 == 5) goto S1_1; if (s1 == INT32_MIN) goto S1_2; if (s1 == 1000000) goto S1_3; if (s1 == 97) goto S1_4; goto B1; S1_0:; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(a >= 1)) goto J5; T = T * 31 + 5; goto B1; J5:; ; if (!((c != 0) || (a == 7))) goto J6; T = T * 31 + 6; goto B1; J6:; goto B1; S1_1:; T = T * 31 + 7; goto B1; S1_2:; T = T * 31 + 8; goto B1; S1_3:; T = T * 31 + 9; goto B1; S1_4:; T = T * 31 + 10; goto B1; B1:; T = T * 31 + 11; return 0; }
static int r220(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(!(i3 < a))) goto J5; T = T * 31 + 5; goto N3; J5:; T = T * 31 + 6; N3: i3 = q(3, i3); goto C3; L3:; if (!(a < c)) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r221(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (int)(int8_t)a; if (s3 == 2) goto S3_0; goto B3; S3_0:; ; T = T * 31 + 4; if (!((a == 2) || (b != 7))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto B3; B3:; if (!(c <= 7)) goto J6; T = T * 31 + 8; return 9; J6:; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r222(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; ex = 0; v4 = p(4, a); T = T * 31 + 5; if (!((v4 <= 0) && (v4 < c))) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; V3:; if (ex) { T = T * 31 + 9; } if (!(p(10, c))) goto J6; T = T * 31 + 11; { ex = 1; goto V1; } J6:; T = T * 31 + 12; V1:; if (ex) { T = T * 31 + 13; } T = T * 31 + 14; return 0; }
static int r223(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; ; T = T * 31 + 3; if (!(b > 7)) goto J5; T = T * 31 + 4; goto N3; J5:; T = T * 31 + 5; goto N3; L3:; T = T * 31 + 6; V1:; if (ex) { T = T * 31 + 7; } T = T * 31 + 8; return 0; }
static int r224(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { 1, 1, 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; if (!(b <= 1)) goto J5; T = T * 31 + 5; goto N3; J5:; N3: n3++; goto C3; L3:; if (!((a <= 2) && (b > -1))) goto J6; T = T * 31 + 6; return 7; J6:; T = T * 31 + 8; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r225(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(c != 2)) goto J5; T = T * 31 + 4; { ex = 1; goto V1; } J5:; ; if (!((c >= 0) && (c <= 0))) goto J6; T = T * 31 + 5; { ex = 1; goto V1; } J6:; T = T * 31 + 6; V1:; if (ex) { T = T * 31 + 7; } T = T * 31 + 8; return 0; }
static int r226(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(p(5, b))) goto J5; T = T * 31 + 6; goto N3; J5:; T = T * 31 + 7; N3: i3 = q(3, i3); goto C3; L3:; if (!(c >= 1)) goto J6; T = T * 31 + 8; goto N1; J6:; T = T * 31 + 9; N1: i1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r227(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; s3 = (b & 7); if (s3 == 2) goto S3_0; if (s3 == 4) goto S3_1; goto B3; S3_0:; if (!(i1 >= 7)) goto J4; T = T * 31 + 4; goto N1; J4:; goto B3; S3_1:; ; T = T * 31 + 5; if (!(i1 < c)) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; goto B3; B3:; if (!(c <= 2)) goto J7; T = T * 31 + 8; goto N1; J7:; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r228(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; ex = 0; ; T = T * 31 + 3; T = T * 31 + 4; V3:; if (ex) { T = T * 31 + 5; } if (!(b <= -1)) goto J5; T = T * 31 + 6; goto N1; J5:; N1: i1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r229(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!((a) || (a))) goto J5; T = T * 31 + 5; goto N3; J5:; goto N3; L3:; if (!(c < 1)) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r230(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { -1, 7, 0 }; e3 = t[n3]; } ; T = T * 31 + 3; if (!(e3 < i1)) goto J5; T = T * 31 + 4; goto N3; J5:; T = T * 31 + 5; N3: n3++; goto C3; L3:; if (!(p(6, c))) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r231(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(a < 2)) goto J5; T = T * 31 + 5; goto N1; J5:; ; if (!((a < 2) || (c != 2))) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r232(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; ; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; ; T = T * 31 + 5; if (!(a < b)) goto J5; T = T * 31 + 6; goto L3; J5:; N3: i3 = q(4, i3); goto C3; L3:; if (!(a)) goto J6; T = T * 31 + 7; goto L1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r233(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; v2 = p(3, a); T = T * 31 + 4; s3 = p(5, a); if (s3 == 5) goto S3_0; if (s3 == 1) goto S3_0; goto B3; S3_0:; ; T = T * 31 + 6; if (!(i1 <= -1)) goto J5; T = T * 31 + 7; goto L1; J5:; goto B3; B3:; if (!(!(a < b))) goto J6; T = T * 31 + 8; goto L1; J6:; T = T * 31 + 9; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r234(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; ex = 0; ; T = T * 31 + 4; if (!(a < b)) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; V3:; if (ex) { T = T * 31 + 7; } if (!(i1 != 2)) goto J6; T = T * 31 + 8; goto L1; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r235(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(v4 <= 2)) goto J5; T = T * 31 + 6; goto L3; J5:; goto N3; L3:; if (!(!(c))) goto J6; T = T * 31 + 7; goto L1; J6:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r236(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; ; T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { -1, 0, 0 }; e3 = t[n3]; } ; T = T * 31 + 4; if (!((a) || (e3 >= 7))) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; if (!((i1 == 7) && (c))) goto J6; T = T * 31 + 7; goto L1; J6:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r237(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; ; T = T * 31 + 4; if (!(a != 1)) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; ; if (!(a != 2)) goto J6; T = T * 31 + 7; goto L1; J6:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r238(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 3)) goto L3; T = T * 31 + 4; if (!(!(w1 >= 2))) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; N3: i3 = q(3, i3); goto C3; L3:; if (!((a < a) || (a != 2))) goto J6; T = T * 31 + 7; goto L1; J6:; T = T * 31 + 8; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r239(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (int)(int8_t)a; if (s3 == 3) goto S3_0; if (s3 == 7) goto S3_1; goto B3; S3_0:; T = T * 31 + 4; if (!(w1 < 2)) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; goto B3; S3_1:; T = T * 31 + 7; goto B3; B3:; if (!(a >= 1)) goto J6; T = T * 31 + 8; goto L1; J6:; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r240(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; V3:; if (ex) { T = T * 31 + 5; } if (!(b < c)) goto J5; T = T * 31 + 6; goto L1; J5:; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r241(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 3; if (!((w3 == 1) && (c < b))) goto J5; T = T * 31 + 4; goto L3; J5:; goto N3; L3:; if (!(!(w1 != 0))) goto J6; T = T * 31 + 5; goto L1; J6:; T = T * 31 + 6; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r242(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, -1, 7, 0 }; e3 = t[n3]; } ; T = T * 31 + 4; if (!(a < 2)) goto J5; T = T * 31 + 5; goto L3; J5:; N3: n3++; goto C3; L3:; if (!(c == 7)) goto J6; T = T * 31 + 6; goto L1; J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r243(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; T = T * 31 + 2; ; T = T * 31 + 3; if (!(w1 < 0)) goto J5; T = T * 31 + 4; goto L1; J5:; ; if (!(c < c)) goto J6; T = T * 31 + 5; goto L1; J6:; goto N1; L1:; T = T * 31 + 6; return 0; }
static int r244(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { 7, -1, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!((a < 1) && (e1 > -1))) goto J5; T = T * 31 + 6; goto L3; J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(b < b)) goto J6; T = T * 31 + 7; goto L1; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r245(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } T = T * 31 + 2; s3 = c; if (s3 == 1) goto S3_0; goto D3; S3_0:; T = T * 31 + 4; if (!((b == 1) || (c == 1))) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; goto B3; D3:; T = T * 31 + 7; ; B3:; if (!((e1 < e1) || (a))) goto J6; T = T * 31 + 8; goto L1; J6:; T = T * 31 + 9; N1: n1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r246(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 7, 0, 7, 0 }; e1 = t[n1]; } T = T * 31 + 2; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(p(4, b))) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; V3:; if (ex) { T = T * 31 + 7; } if (!(p(8, b))) goto J6; T = T * 31 + 9; goto L1; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r247(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { -1, 1, -1, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!((e1 == -1) && (w3))) goto J5; T = T * 31 + 5; goto L3; J5:; T = T * 31 + 6; goto N3; L3:; if (!((b < 2) || (e1 < b))) goto J6; T = T * 31 + 7; goto L1; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r248(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 7, -1, 1, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { -1, 0, 7, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((b > 2) && (c < c))) goto J5; T = T * 31 + 4; goto L3; J5:; T = T * 31 + 5; N3: n3++; goto C3; L3:; if (!((c) || (a == 1))) goto J6; T = T * 31 + 6; goto L1; J6:; T = T * 31 + 7; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r249(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { -1, 1, 0, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ; ; T = T * 31 + 3; ; T = T * 31 + 4; N1: n1++; goto C1; L1:; T = T * 31 + 5; return 0; }
static int r250(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, i4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, b); if (s1 == -1) goto S1_0; if (s1 == 5) goto S1_0; if (s1 == 128) goto S1_0; if (s1 == 0) goto S1_1; if (s1 == 127) goto S1_2; if (s1 == -128) goto S1_2; if (s1 == INT32_MIN) goto S1_3; if (s1 == 2147483647) goto S1_4; goto D1; S1_0:; if (!(c > 0)) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; v3 = p(5, a); T = T * 31 + 6; i4 = 0; C4: if (!(i4 < (a & 3))) goto L4; v5 = 0; T += v5; v5 = 5; T = T * 31 + 8; if (!(i4 == -1)) goto J6; T = T * 31 + 9; goto L4; J6:; N4: i4 = q(7, i4); goto C4; L4:; if (!((b) && (b > 0))) goto J7; T = T * 31 + 10; goto B1; J7:; T = T * 31 + 11; goto B1; S1_2:; T = T * 31 + 12; goto B1; S1_3:; T = T * 31 + 13; goto B1; S1_4:; T = T * 31 + 14; goto B1; D1:; T = T * 31 + 15; ; B1:; T = T * 31 + 16; return 0; }
static int r251(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, s4 = 0, v6 = 0; T = T * 31 + 1; s1 = c; if (s1 == 2147483647) goto S1_0; if (s1 == 2) goto S1_1; if (s1 == 127) goto S1_2; if (s1 == 128) goto S1_3; if (s1 == INT32_MIN) goto S1_4; if (s1 == 1000000) goto S1_5; if (s1 == 97) goto S1_6; if (s1 == -129) goto S1_6; if (s1 == 1) goto S1_6; goto D1; S1_0:; if (!(c < a)) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; T = T * 31 + 6; goto B1; S1_3:; T = T * 31 + 7; goto B1; S1_4:; T = T * 31 + 8; goto B1; S1_5:; T = T * 31 + 9; s4 = (b & 7); if (s4 == 1) goto S4_0; if (s4 == 0) goto S4_1; if (s4 == 97) goto S4_2; goto D4; S4_0:; if (!(p(11, a))) goto J5; T = T * 31 + 12; goto B4; J5:; goto B4; S4_1:; T = T * 31 + 13; goto B4; S4_2:; T = T * 31 + 14; goto B4; D4:; T = T * 31 + 15; if (!(!(a <= 0))) goto J7; T = T * 31 + 16; return 17; J7:; T = T * 31 + 18; ; B4:; T = T * 31 + 19; goto B1; S1_6:; T = T * 31 + 20; goto B1; D1:; T = T * 31 + 21; ; B1:; T = T * 31 + 22; return 0; }
static int r252(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, c); if (s1 == 5) goto S1_0; if (s1 == 6) goto S1_1; if (s1 == 1) goto S1_1; if (s1 == 0) goto S1_2; if (s1 == 4) goto S1_3; if (s1 == 3) goto S1_3; if (s1 == 7) goto S1_3; goto B1; S1_0:; if (!(p(3, b))) goto J2; T = T * 31 + 4; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; v3 = p(6, a); T = T * 31 + 7; ex = 0; v5 = p(8, a); T = T * 31 + 9; if (!(p(10, a))) goto J6; T = T * 31 + 11; goto B1; J6:; V4:; if (ex) { T = T * 31 + 12; } if (!(p(13, a))) goto J7; T = T * 31 + 14; goto B1; J7:; goto B1; S1_3:; T = T * 31 + 15; goto B1; B1:; T = T * 31 + 16; return 0; }
static int r253(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; s1 = (int)(int8_t)b; if (s1 == 1) goto S1_0; if (s1 == 0) goto S1_0; if (s1 == 4) goto S1_1; if (s1 == 2) goto S1_2; if (s1 == 3) goto S1_3; if (s1 == 6) goto S1_4; if (s1 == 7) goto S1_5; goto B1; S1_0:; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(!(v4))) goto J5; T = T * 31 + 6; goto L3; J5:; T = T * 31 + 7; goto N3; L3:; if (!(c != 2)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; goto B1; S1_1:; T = T * 31 + 9; goto B1; S1_2:; T = T * 31 + 10; goto B1; S1_3:; T = T * 31 + 11; goto B1; S1_4:; T = T * 31 + 12; goto B1; S1_5:; T = T * 31 + 13; goto B1; B1:; T = T * 31 + 14; return 0; }
static int r254(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, e4 = 0, n4 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)a; if (s1 == -1) goto S1_0; if (s1 == -7) goto S1_0; if (s1 == 5) goto S1_1; if (s1 == 2) goto S1_2; if (s1 == 1) goto S1_2; if (s1 == 128) goto S1_2; if (s1 == -129) goto S1_3; if (s1 == 127) goto S1_4; goto B1; S1_0:; if (!(a < c)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; ; T = T * 31 + 5; n4 = 0; C4: if (!(n4 < 3)) goto L4; { static const int t[] = { 0, 1, 7, 0 }; e4 = t[n4]; } ; T = T * 31 + 6; N4: n4++; goto C4; L4:; if (!(p(7, c))) goto J6; T = T * 31 + 8; goto B1; J6:; goto B1; S1_3:; T = T * 31 + 9; goto B1; S1_4:; T = T * 31 + 10; goto B1; B1:; T = T * 31 + 11; return 0; }
static int r255(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)b; if (s1 == 6) goto S1_0; if (s1 == 7) goto S1_1; if (s1 == 0) goto S1_1; if (s1 == 3) goto S1_1; if (s1 == 4) goto S1_2; if (s1 == 5) goto S1_3; if (s1 == 2) goto S1_4; if (s1 == 1) goto S1_4; goto D1; S1_0:; if (!((b >= -1) && (a < a))) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; ; T = T * 31 + 7; ; v5 = p(8, a); T = T * 31 + 9; if (!(a)) goto J6; T = T * 31 + 10; goto B1; J6:; T = T * 31 + 11; ; if (!(b)) goto J7; T = T * 31 + 12; goto B1; J7:; T = T * 31 + 13; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r256(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!((b <= 0) && (v2 < b))) goto J5; T = T * 31 + 6; goto L3; J5:; T = T * 31 + 7; N3: i3 = q(4, i3); goto C3; L3:; if (!(b == 7)) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; V1:; if (ex) { T = T * 31 + 11; } T = T * 31 + 12; return 0; }
static int r257(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = p(3, a); if (s3 == 1) goto S3_0; if (s3 == 5) goto S3_1; if (s3 == 2) goto S3_2; goto B3; S3_0:; ; T = T * 31 + 4; if (!((a < a) || (c < 7))) goto J5; T = T * 31 + 5; goto B3; J5:; T = T * 31 + 6; goto B3; S3_1:; T = T * 31 + 7; goto B3; S3_2:; T = T * 31 + 8; goto B3; B3:; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r258(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(b)) goto J5; T = T * 31 + 4; return 5; J5:; V3:; if (ex) { T = T * 31 + 6; } if (!(b != 7)) goto J6; T = T * 31 + 7; { ex = 1; goto V1; } J6:; V1:; if (ex) { T = T * 31 + 8; } T = T * 31 + 9; return 0; }
static int r259(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; goto N3; L3:; if (!(c <= 2)) goto J5; T = T * 31 + 4; { ex = 1; goto V1; } J5:; T = T * 31 + 5; V1:; if (ex) { T = T * 31 + 6; } T = T * 31 + 7; return 0; }
static int r260(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 0)) goto L3; { static const int t[] = { 0 }; e3 = t[n3]; } ; T = T * 31 + 3; N3: n3++; goto C3; L3:; if (!(b >= 2)) goto J5; T = T * 31 + 4; { ex = 1; goto V1; } J5:; T = T * 31 + 5; V1:; if (ex) { T = T * 31 + 6; } T = T * 31 + 7; return 0; }
static int r261(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; ; T = T * 31 + 4; if (!(!(b >= 7))) goto J5; T = T * 31 + 5; return 6; J5:; ; if (!((b < c) && (b <= -1))) goto J6; T = T * 31 + 7; return 8; J6:; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r262(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; T = T * 31 + 4; if (!((i1 == 7) || (c < i3))) goto J5; T = T * 31 + 5; goto L3; J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(c == 2)) goto J6; T = T * 31 + 6; goto L1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r263(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; s3 = (v2 & 7); if (s3 == 5) goto S3_0; goto D3; S3_0:; if (!(a)) goto J4; T = T * 31 + 5; goto L1; J4:; goto B3; D3:; v5 = p(6, a); T = T * 31 + 7; if (!(b < b)) goto J6; T = T * 31 + 8; goto L1; J6:; T = T * 31 + 9; ; B3:; if (!(!(a))) goto J7; T = T * 31 + 10; goto L1; J7:; N1: i1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r264(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!((c >= 1) && (b >= 1))) goto J5; T = T * 31 + 4; goto L1; J5:; T = T * 31 + 5; V3:; if (ex) { T = T * 31 + 6; } if (!(i1)) goto J6; T = T * 31 + 7; goto L1; J6:; T = T * 31 + 8; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r265(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((i1) && (w3 == 0))) goto J5; T = T * 31 + 4; goto L3; J5:; goto N3; L3:; if (!(!(b == 0))) goto J6; T = T * 31 + 5; goto L1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 6; return 0; }
static int r266(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 0)) goto L3; { static const int t[] = { 0 }; e3 = t[n3]; } T = T * 31 + 3; N3: n3++; goto C3; L3:; if (!(i1 >= 1)) goto J5; T = T * 31 + 4; goto L1; J5:; N1: i1++; goto C1; L1:; T = T * 31 + 5; return 0; }
static int r267(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(a <= 2)) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; ; if (!(!(b != -1))) goto J6; T = T * 31 + 7; goto L1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r268(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < 2)) goto L3; v4 = p(5, a); T = T * 31 + 6; T = T * 31 + 7; N3: i3 = q(4, i3); goto C3; L3:; if (!(a >= 0)) goto J5; T = T * 31 + 8; goto L1; J5:; T = T * 31 + 9; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r269(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; v2 = p(3, a); T = T * 31 + 4; s3 = (int)(int8_t)a; if (s3 == 1) goto S3_0; if (s3 == 5) goto S3_0; if (s3 == 6) goto S3_1; goto B3; S3_0:; ; T = T * 31 + 6; if (!((i1 != 2) && (b))) goto J5; T = T * 31 + 7; goto B3; J5:; T = T * 31 + 8; goto B3; S3_1:; T = T * 31 + 9; goto B3; B3:; if (!(c < 7)) goto J6; T = T * 31 + 10; { *err = 1; return 0; } J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 11; return 0; }
static int r270(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; v2 = p(3, a); T = T * 31 + 4; ex = 0; v4 = p(5, a); T = T * 31 + 6; if (!((v2) && (a >= -1))) goto J5; T = T * 31 + 7; goto N1; J5:; V3:; if (ex) { T = T * 31 + 8; } N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r271(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; v2 = p(3, a); T = T * 31 + 4; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(!(c < c))) goto J5; T = T * 31 + 6; goto L3; J5:; goto N3; L3:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 7; return 0; }
static int r272(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; ; T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 7, 1, 1, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(e3 > -1)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; N3: n3++; goto C3; L3:; if (!(c >= -1)) goto J6; T = T * 31 + 6; goto L1; J6:; T = T * 31 + 7; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r273(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; T = T * 31 + 3; ; v4 = p(4, a); T = T * 31 + 5; if (!(b >= 2)) goto J5; T = T * 31 + 6; goto N1; J5:; ; if (!(b < -1)) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r274(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = p(5, a); T = T * 31 + 6; if (!(c <= 2)) goto J5; T = T * 31 + 7; goto L3; J5:; T = T * 31 + 8; N3: i3 = q(4, i3); goto C3; L3:; if (!((b <= 7) && (a < c))) goto J6; T = T * 31 + 9; goto L1; J6:; T = T * 31 + 10; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r275(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (int)(int8_t)b; if (s3 == 7) goto S3_0; if (s3 == 2) goto S3_1; goto D3; S3_0:; if (!(w1 == 1)) goto J4; T = T * 31 + 4; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 5; goto B3; D3:; v5 = p(6, a); T = T * 31 + 7; if (!((v5 == 0) && (v5))) goto J6; T = T * 31 + 8; goto B3; J6:; ; B3:; if (!(c > 1)) goto J7; T = T * 31 + 9; goto L1; J7:; T = T * 31 + 10; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r276(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; ; T = T * 31 + 2; ex = 0; ; T = T * 31 + 3; if (!((b < w1) && (c < b))) goto J5; T = T * 31 + 4; goto N1; J5:; V3:; if (ex) { T = T * 31 + 5; } goto N1; L1:; T = T * 31 + 6; return 0; }
static int r277(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!((c > 7) && (b < 2))) goto J5; T = T * 31 + 5; goto N3; J5:; goto N3; L3:; goto N1; L1:; T = T * 31 + 6; return 0; }
static int r278(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 0)) goto L3; { static const int t[] = { 0 }; e3 = t[n3]; } T = T * 31 + 4; if (!(!(a <= 1))) goto J5; T = T * 31 + 5; goto N3; J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r279(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((c < a) || (w1 <= 1))) goto J5; T = T * 31 + 4; goto N1; J5:; T = T * 31 + 5; ; if (!((w1 < 2) && (c < c))) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r280(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(v2)) goto J5; T = T * 31 + 6; return 7; J5:; N3: i3 = q(4, i3); goto C3; L3:; if (!(v2 == -1)) goto J6; T = T * 31 + 8; return 9; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r281(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } T = T * 31 + 2; s3 = (int)(int8_t)e1; if (s3 == 6) goto S3_0; if (s3 == 3) goto S3_0; if (s3 == 7) goto S3_0; goto B3; S3_0:; v4 = p(4, a); T = T * 31 + 5; if (!(e1 < b)) goto J5; T = T * 31 + 6; goto B3; J5:; T = T * 31 + 7; goto B3; B3:; if (!(c)) goto J6; T = T * 31 + 8; goto L1; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r282(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } ; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; T = T * 31 + 5; V3:; if (ex) { T = T * 31 + 6; } if (!(p(7, e1))) goto J5; T = T * 31 + 8; goto N1; J5:; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r283(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(e1 < v4)) goto J5; T = T * 31 + 6; goto L3; J5:; goto N3; L3:; if (!(b < 2)) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r284(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { -1, -1, 0, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { -1, -1, 0, 0 }; e3 = t[n3]; } v4 = p(4, a); T = T * 31 + 5; if (!(b < -1)) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; N3: n3++; goto C3; L3:; if (!(!(b == 2))) goto J6; T = T * 31 + 9; return 10; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r285(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, 7, 0, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ; T = T * 31 + 3; if (!((c < -1) && (a != -1))) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; ; if (!(a == 7)) goto J6; T = T * 31 + 7; goto N1; J6:; T = T * 31 + 8; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r286(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, i4 = 0, v5 = 0; T = T * 31 + 1; s1 = c; if (s1 == 1) goto S1_0; if (s1 == 7) goto S1_1; if (s1 == 3) goto S1_2; if (s1 == 4) goto S1_2; if (s1 == 6) goto S1_3; if (s1 == 0) goto S1_4; if (s1 == 2) goto S1_5; if (s1 == 5) goto S1_5; goto D1; S1_0:; if (!(p(3, c))) goto J2; T = T * 31 + 4; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 6; i4 = 0; C4: if (!(i4 < (a & 3))) goto L4; v5 = p(8, a); T = T * 31 + 9; if (!(!(a))) goto J6; T = T * 31 + 10; goto B1; J6:; N4: i4 = q(7, i4); goto C4; L4:; if (!((b >= 7) || (c >= -1))) goto J7; T = T * 31 + 11; goto B1; J7:; T = T * 31 + 12; goto B1; S1_3:; T = T * 31 + 13; goto B1; S1_4:; T = T * 31 + 14; goto B1; S1_5:; T = T * 31 + 15; goto B1; D1:; T = T * 31 + 16; ; B1:; T = T * 31 + 17; return 0; }
static int r287(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, s4 = 0, v6 = 0; T = T * 31 + 1; s1 = p(2, b); if (s1 == 1000000) goto S1_0; if (s1 == -1) goto S1_0; if (s1 == -7) goto S1_0; if (s1 == -129) goto S1_1; if (s1 == 0) goto S1_2; if (s1 == 127) goto S1_3; if (s1 == 97) goto S1_4; if (s1 == -128) goto S1_5; goto B1; S1_0:; if (!(c < a)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; ; T = T * 31 + 5; s4 = p(6, b); if (s4 == 1000000) goto S4_0; if (s4 == 1) goto S4_1; goto D4; S4_0:; if (!(c > -1)) goto J5; T = T * 31 + 7; goto B4; J5:; goto B4; S4_1:; v6 = 0; T += v6; v6 = 5; T = T * 31 + 8; if (!(b > 1)) goto J7; T = T * 31 + 9; goto B4; J7:; T = T * 31 + 10; goto B4; D4:; T = T * 31 + 11; ; B4:; T = T * 31 + 12; goto B1; S1_3:; T = T * 31 + 13; goto B1; S1_4:; T = T * 31 + 14; goto B1; S1_5:; T = T * 31 + 15; goto B1; B1:; T = T * 31 + 16; return 0; }
static int r288(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = (b & 7); if (s1 == 0) goto S1_0; if (s1 == 6) goto S1_1; if (s1 == 7) goto S1_1; if (s1 == 3) goto S1_2; if (s1 == 4) goto S1_3; if (s1 == 5) goto S1_3; if (s1 == 1) goto S1_3; if (s1 == 2) goto S1_4; goto B1; S1_0:; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; ex = 0; ; T = T * 31 + 4; if (!((b != 1) && (c > 1))) goto J5; T = T * 31 + 5; goto B1; J5:; T = T * 31 + 6; V3:; if (ex) { T = T * 31 + 7; } if (!(a)) goto J6; T = T * 31 + 8; goto B1; J6:; goto B1; S1_1:; T = T * 31 + 9; goto B1; S1_2:; T = T * 31 + 10; goto B1; S1_3:; T = T * 31 + 11; goto B1; S1_4:; T = T * 31 + 12; goto B1; B1:; T = T * 31 + 13; return 0; }
static int r289(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, w4 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)c; if (s1 == 1) goto S1_0; if (s1 == -1) goto S1_1; if (s1 == 127) goto S1_2; if (s1 == 5) goto S1_2; if (s1 == 128) goto S1_3; if (s1 == 0) goto S1_4; goto B1; S1_0:; if (!(c < b)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; ; T = T * 31 + 7; w4 = 0; N4: if (w4++ >= 2) goto L4; v5 = 0; T += v5; v5 = 5; T = T * 31 + 8; if (!(!(a))) goto J6; T = T * 31 + 9; goto B1; J6:; goto N4; L4:; if (!(a < a)) goto J7; T = T * 31 + 10; goto B1; J7:; T = T * 31 + 11; goto B1; B1:; T = T * 31 + 12; return 0; }
static int r290(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, e4 = 0, n4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, c); if (s1 == 1000000) goto S1_0; if (s1 == 0) goto S1_0; if (s1 == -1) goto S1_1; if (s1 == -128) goto S1_2; if (s1 == 97) goto S1_3; if (s1 == -7) goto S1_3; if (s1 == 128) goto S1_3; if (s1 == INT32_MIN) goto S1_4; goto D1; S1_0:; if (!(a < a)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; T = T * 31 + 7; goto B1; D1:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 8; n4 = 0; C4: if (!(n4 < 2)) goto L4; { static const int t[] = { -1, 1, 0 }; e4 = t[n4]; } T = T * 31 + 9; if (!(!(c < a))) goto J6; T = T * 31 + 10; goto B1; J6:; N4: n4++; goto C4; L4:; if (!(c < c)) goto J7; T = T * 31 + 11; goto B1; J7:; T = T * 31 + 12; ; B1:; T = T * 31 + 13; return 0; }
static int r291(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)a; if (s1 == 5) goto S1_0; if (s1 == 1) goto S1_1; if (s1 == 4) goto S1_2; if (s1 == 7) goto S1_3; if (s1 == 2) goto S1_3; if (s1 == 6) goto S1_3; if (s1 == 0) goto S1_4; if (s1 == 3) goto S1_4; goto B1; S1_0:; if (!(c)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 4; ; v5 = p(5, a); T = T * 31 + 6; if (!((c < c) && (v5 == -1))) goto J6; T = T * 31 + 7; goto B1; J6:; ; if (!(b < c)) goto J7; T = T * 31 + 8; goto B1; J7:; T = T * 31 + 9; goto B1; S1_2:; T = T * 31 + 10; goto B1; S1_3:; T = T * 31 + 11; goto B1; S1_4:; T = T * 31 + 12; goto B1; B1:; T = T * 31 + 13; return 0; }
static int r292(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(i3 > 2)) goto J5; T = T * 31 + 5; goto L3; J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(a != -1)) goto J6; T = T * 31 + 6; return 7; J6:; V1:; if (ex) { T = T * 31 + 8; } T = T * 31 + 9; return 0; }
static int r293(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; s3 = p(3, a); if (s3 == -1) goto S3_0; if (s3 == 1000000) goto S3_1; goto D3; S3_0:; if (!((b != 1) && (c > 2))) goto J4; T = T * 31 + 4; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 5; goto B3; D3:; T = T * 31 + 6; if (!((a > 7) || (a == 7))) goto J6; T = T * 31 + 7; goto B3; J6:; T = T * 31 + 8; ; B3:; if (!(p(9, b))) goto J7; T = T * 31 + 10; return 11; J7:; T = T * 31 + 12; V1:; if (ex) { T = T * 31 + 13; } T = T * 31 + 14; return 0; }
static int r294(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; ex = 0; T = T * 31 + 4; if (!(v2 < 1)) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } if (!(c < v2)) goto J6; T = T * 31 + 9; return 10; J6:; V1:; if (ex) { T = T * 31 + 11; } T = T * 31 + 12; return 0; }
static int r295(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!(p(5, a))) goto J5; T = T * 31 + 6; goto N3; J5:; goto N3; L3:; if (!(b >= 1)) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r296(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, 7, 0, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!((v2 > -1) || (v2 < 7))) goto J5; T = T * 31 + 5; goto L3; J5:; N3: n3++; goto C3; L3:; V1:; if (ex) { T = T * 31 + 6; } T = T * 31 + 7; return 0; }
static int r297(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; ; ; T = T * 31 + 3; if (!((b) && (c < c))) goto J5; T = T * 31 + 4; { ex = 1; goto V1; } J5:; T = T * 31 + 5; ; if (!((c) || (b < c))) goto J6; T = T * 31 + 6; return 7; J6:; T = T * 31 + 8; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r298(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (!(i3 < 3)) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(v2 < c)) goto J5; T = T * 31 + 6; goto L3; J5:; N3: i3 = q(4, i3); goto C3; L3:; if (!(v2 >= -1)) goto J6; T = T * 31 + 7; goto L1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r299(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; s3 = c; if (s3 == 3) goto S3_0; if (s3 == 2) goto S3_1; goto D3; S3_0:; v4 = p(5, a); T = T * 31 + 6; if (!((a < c) && (v2 == 0))) goto J5; T = T * 31 + 7; goto B3; J5:; goto B3; S3_1:; T = T * 31 + 8; goto B3; D3:; T = T * 31 + 9; ; B3:; if (!(b >= -1)) goto J6; T = T * 31 + 10; goto N1; J6:; T = T * 31 + 11; N1: i1++; goto C1; L1:; T = T * 31 + 12; return 0; }
static int r300(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!(b < a)) goto J5; T = T * 31 + 4; goto N1; J5:; V3:; if (ex) { T = T * 31 + 5; } if (!((c >= 1) || (c < c))) goto J6; T = T * 31 + 6; goto N1; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r301(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 3; goto N3; L3:; if (!((i1 >= 0) && (a <= 1))) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; N1: i1++; goto C1; L1:; T = T * 31 + 5; return 0; }
static int r302(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { 1, 0, 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; if (!(i1 > -1)) goto J5; T = T * 31 + 5; goto L3; J5:; N3: n3++; goto C3; L3:; if (!(a >= -1)) goto J6; T = T * 31 + 6; goto N1; J6:; T = T * 31 + 7; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r303(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; ; ; T = T * 31 + 3; if (!(i1 != 2)) goto J5; T = T * 31 + 4; goto N1; J5:; ; if (!(a < 2)) goto J6; T = T * 31 + 5; { *err = 1; return 0; } J6:; T = T * 31 + 6; N1: i1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r304(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; ; T = T * 31 + 5; if (!(i3 != -1)) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; N3: i3 = q(4, i3); goto C3; L3:; if (!(b >= -1)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 8; return 0; }
static int r305(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; ; T = T * 31 + 3; s3 = (c & 7); if (s3 == 3) goto S3_0; if (s3 == 1) goto S3_1; goto B3; S3_0:; if (!(i1 <= 2)) goto J4; T = T * 31 + 5; { *err = 1; return 0; } J4:; goto B3; S3_1:; v5 = p(6, a); T = T * 31 + 7; if (!((v5 < c) || (v5 > 2))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; T = T * 31 + 9; goto B3; B3:; if (!(p(10, a))) goto J7; T = T * 31 + 11; { *err = 1; return 0; } J7:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 12; return 0; }
static int r306(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; v2 = p(3, a); T = T * 31 + 4; ex = 0; T = T * 31 + 5; if (!(p(6, a))) goto J5; T = T * 31 + 7; { ex = 1; goto V3; } J5:; V3:; if (ex) { T = T * 31 + 8; } N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r307(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; ; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 4; if (!(w3 < b)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; goto N3; L3:; if (!(p(7, i1))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; T = T * 31 + 9; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r308(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; v2 = p(3, a); T = T * 31 + 4; n3 = 0; C3: if (!(n3 < 0)) goto L3; { static const int t[] = { 0 }; e3 = t[n3]; } ; T = T * 31 + 5; if (!(b)) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; N3: n3++; goto C3; L3:; if (!(i1 != 2)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; T = T * 31 + 9; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r309(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; ; T = T * 31 + 3; ; v4 = p(4, a); T = T * 31 + 5; if (!((c > -1) && (b <= 2))) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; ; if (!(!(i1 <= 2))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r310(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (!(i3 < 2)) goto L3; T = T * 31 + 5; if (!(b < v2)) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; N3: i3 = q(4, i3); goto C3; L3:; if (!(c < a)) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; goto N1; L1:; T = T * 31 + 9; return 0; }
static int r311(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; ; T = T * 31 + 2; s3 = w1; if (s3 == 97) goto S3_0; if (s3 == 1) goto S3_1; if (s3 == 128) goto S3_2; goto D3; S3_0:; if (!(a > 1)) goto J4; T = T * 31 + 4; { *err = 1; return 0; } J4:; goto B3; S3_1:; T = T * 31 + 5; goto B3; S3_2:; ; T = T * 31 + 6; if (!(b)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; goto B3; D3:; T = T * 31 + 8; ; B3:; if (!(b >= 7)) goto J7; T = T * 31 + 9; { *err = 1; return 0; } J7:; T = T * 31 + 10; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r312(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; ; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!(a)) goto J5; T = T * 31 + 4; { ex = 1; goto V3; } J5:; V3:; if (ex) { T = T * 31 + 5; } if (!(c != -1)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r313(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(c)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; goto N3; L3:; if (!(w1 >= 1)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r314(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, 7, 0, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(c >= 2)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; N3: n3++; goto C3; L3:; if (!((b <= 0) && (c < w1))) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r315(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ; v4 = p(3, a); T = T * 31 + 4; if (!(a)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; ; if (!((a) || (b == 1))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; goto N1; L1:; T = T * 31 + 8; return 0; }
static int r316(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, -1, 0, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 3)) goto L3; T = T * 31 + 4; if (!(e1 < c)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; N3: i3 = q(3, i3); goto C3; L3:; if (!(c == 7)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r317(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } T = T * 31 + 2; s3 = p(3, e1); if (s3 == 0) goto S3_0; if (s3 == 1) goto S3_1; goto B3; S3_0:; T = T * 31 + 4; if (!(e1 > 7)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; goto B3; S3_1:; T = T * 31 + 6; goto B3; B3:; if (!(c)) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r318(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { 0, -1, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; ; T = T * 31 + 3; if (!(c < 1)) goto J5; T = T * 31 + 4; { ex = 1; goto V3; } J5:; V3:; if (ex) { T = T * 31 + 5; } N1: n1++; goto C1; L1:; T = T * 31 + 6; return 0; }
static int r319(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, -1, 7, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 3; if (!(!(w3 < b))) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; goto N3; L3:; if (!((e1 > 1) && (a))) goto J6; T = T * 31 + 5; { *err = 1; return 0; } J6:; N1: n1++; goto C1; L1:; T = T * 31 + 6; return 0; }
static int r320(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { -1, 1, 7, 0 }; e1 = t[n1]; } T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 1, -1, -1, 0 }; e3 = t[n3]; } T = T * 31 + 3; if (!((c) || (a))) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; N3: n3++; goto C3; L3:; if (!(!(e1 < c))) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r321(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 1, 0, 1, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; ; v4 = p(4, a); T = T * 31 + 5; T = T * 31 + 6; ; if (!((b >= 1) || (v2 != -1))) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; N1: n1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r322(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; s1 = c; if (s1 == 4) goto S1_0; if (s1 == 0) goto S1_1; if (s1 == 7) goto S1_2; if (s1 == 3) goto S1_2; if (s1 == 2) goto S1_3; if (s1 == 1) goto S1_4; if (s1 == 5) goto S1_5; if (s1 == 6) goto S1_5; goto B1; S1_0:; ; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(p(6, i3))) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; T = T * 31 + 8; N3: i3 = q(4, i3); goto C3; L3:; if (!(c < 7)) goto J6; T = T * 31 + 9; { *err = 1; return 0; } J6:; T = T * 31 + 10; goto B1; S1_1:; T = T * 31 + 11; goto B1; S1_2:; T = T * 31 + 12; goto B1; S1_3:; T = T * 31 + 13; goto B1; S1_4:; T = T * 31 + 14; goto B1; S1_5:; T = T * 31 + 15; goto B1; B1:; T = T * 31 + 16; return 0; }
static int r323(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; s1 = (c & 7); if (s1 == 2147483647) goto S1_0; if (s1 == INT32_MIN) goto S1_1; if (s1 == -128) goto S1_1; if (s1 == -1) goto S1_2; if (s1 == 1000000) goto S1_3; if (s1 == 97) goto S1_3; if (s1 == -7) goto S1_3; if (s1 == 127) goto S1_4; goto B1; S1_0:; ; T = T * 31 + 3; s3 = (int)(int8_t)a; if (s3 == -7) goto S3_0; goto B3; S3_0:; T = T * 31 + 5; if (!(!(b < a))) goto J5; T = T * 31 + 6; { *err = 1; return 0; } J5:; T = T * 31 + 7; goto B3; B3:; if (!(!(b < c))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; goto B1; S1_1:; T = T * 31 + 9; goto B1; S1_2:; T = T * 31 + 10; goto B1; S1_3:; T = T * 31 + 11; goto B1; S1_4:; T = T * 31 + 12; goto B1; B1:; T = T * 31 + 13; return 0; }
static int r324(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = (c & 7); if (s1 == 97) goto S1_0; if (s1 == -1) goto S1_1; if (s1 == INT32_MIN) goto S1_2; if (s1 == 1000000) goto S1_2; if (s1 == 2) goto S1_2; if (s1 == 1) goto S1_3; goto D1; S1_0:; if (!((a < b) || (a))) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; v3 = p(6, a); T = T * 31 + 7; ex = 0; v5 = p(8, a); T = T * 31 + 9; if (!(a < c)) goto J6; T = T * 31 + 10; { ex = 1; goto V4; } J6:; T = T * 31 + 11; V4:; if (ex) { T = T * 31 + 12; } if (!((b < a) && (v3 > -1))) goto J7; T = T * 31 + 13; { *err = 1; return 0; } J7:; T = T * 31 + 14; goto B1; D1:; T = T * 31 + 15; ; B1:; T = T * 31 + 16; return 0; }
static int r325(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, w4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, a); if (s1 == 0) goto S1_0; if (s1 == 5) goto S1_1; if (s1 == 2) goto S1_2; if (s1 == 1) goto S1_3; if (s1 == 4) goto S1_4; if (s1 == 6) goto S1_5; goto D1; S1_0:; if (!((b >= -1) && (c > 1))) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 4; goto B1; S1_2:; T = T * 31 + 5; goto B1; S1_3:; T = T * 31 + 6; goto B1; S1_4:; v3 = p(7, a); T = T * 31 + 8; w4 = 0; N4: if (w4++ >= 2) goto L4; v5 = 0; T += v5; v5 = 5; T = T * 31 + 9; if (!(w4 <= 1)) goto J6; T = T * 31 + 10; { *err = 1; return 0; } J6:; T = T * 31 + 11; goto N4; L4:; if (!(c < a)) goto J7; T = T * 31 + 12; { *err = 1; return 0; } J7:; goto B1; S1_5:; T = T * 31 + 13; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r326(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, e4 = 0, n4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, a); if (s1 == 1) goto S1_0; if (s1 == 6) goto S1_1; if (s1 == 3) goto S1_2; if (s1 == 5) goto S1_3; if (s1 == 0) goto S1_4; if (s1 == 7) goto S1_5; if (s1 == 4) goto S1_6; goto D1; S1_0:; if (!(p(3, a))) goto J2; T = T * 31 + 4; { *err = 1; return 0; } J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; T = T * 31 + 6; goto B1; S1_3:; T = T * 31 + 7; goto B1; S1_4:; T = T * 31 + 8; n4 = 0; C4: if (!(n4 < 3)) goto L4; { static const int t[] = { 1, 7, 7, 0 }; e4 = t[n4]; } v5 = 0; T += v5; v5 = 5; T = T * 31 + 9; if (!((b) && (c < e4))) goto J6; T = T * 31 + 10; { *err = 1; return 0; } J6:; T = T * 31 + 11; N4: n4++; goto C4; L4:; if (!((a) && (c))) goto J7; T = T * 31 + 12; { *err = 1; return 0; } J7:; goto B1; S1_5:; T = T * 31 + 13; goto B1; S1_6:; T = T * 31 + 14; goto B1; D1:; T = T * 31 + 15; ; B1:; T = T * 31 + 16; return 0; }
static int r327(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; s1 = (int)(int8_t)c; if (s1 == 1) goto S1_0; if (s1 == 5) goto S1_1; if (s1 == 3) goto S1_2; if (s1 == 6) goto S1_3; if (s1 == 4) goto S1_4; if (s1 == 0) goto S1_4; if (s1 == 7) goto S1_4; if (s1 == 2) goto S1_5; goto D1; S1_0:; ; T = T * 31 + 3; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(a == 0)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; ; if (!(p(6, a))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; goto B1; S1_1:; T = T * 31 + 9; goto B1; S1_2:; T = T * 31 + 10; goto B1; S1_3:; T = T * 31 + 11; goto B1; S1_4:; T = T * 31 + 12; goto B1; S1_5:; T = T * 31 + 13; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r328(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; v4 = p(4, a); T = T * 31 + 5; if (!(c)) goto J5; T = T * 31 + 6; { ex = 1; goto V1; } J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!((b <= 0) && (b <= -1))) goto J6; T = T * 31 + 7; { ex = 1; goto V1; } J6:; T = T * 31 + 8; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r329(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = p(3, a); if (s3 == -128) goto S3_0; if (s3 == 127) goto S3_0; if (s3 == -1) goto S3_0; goto D3; S3_0:; v4 = p(4, a); T = T * 31 + 5; if (!(a < a)) goto J5; T = T * 31 + 6; { ex = 1; goto V1; } J5:; T = T * 31 + 7; goto B3; D3:; T = T * 31 + 8; ; B3:; if (!(!(c < a))) goto J6; T = T * 31 + 9; { ex = 1; goto V1; } J6:; T = T * 31 + 10; V1:; if (ex) { T = T * 31 + 11; } T = T * 31 + 12; return 0; }
static int r330(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; ex = 0; ; T = T * 31 + 4; if (!((v2 < c) || (v2))) goto J5; T = T * 31 + 5; { ex = 1; goto V3; } J5:; T = T * 31 + 6; V3:; if (ex) { T = T * 31 + 7; } if (!(p(8, c))) goto J6; T = T * 31 + 9; { ex = 1; goto V1; } J6:; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r331(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 3; if (!(w3 == 1)) goto J5; T = T * 31 + 4; { ex = 1; goto V1; } J5:; goto N3; L3:; if (!(c != 7)) goto J6; T = T * 31 + 5; { ex = 1; goto V1; } J6:; T = T * 31 + 6; V1:; if (ex) { T = T * 31 + 7; } T = T * 31 + 8; return 0; }
static int r332(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 1, -1, 0, 0 }; e3 = t[n3]; } v4 = p(4, a); T = T * 31 + 5; if (!(p(6, c))) goto J5; T = T * 31 + 7; { ex = 1; goto V1; } J5:; T = T * 31 + 8; N3: n3++; goto C3; L3:; T = T * 31 + 9; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r333(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; ; T = T * 31 + 3; if (!(!(b == 2))) goto J5; T = T * 31 + 4; { ex = 1; goto V1; } J5:; ; if (!(c <= 1)) goto J6; T = T * 31 + 5; { ex = 1; goto V1; } J6:; T = T * 31 + 6; V1:; if (ex) { T = T * 31 + 7; } T = T * 31 + 8; return 0; }
static int r334(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 2)) goto L3; T = T * 31 + 4; if (!(a != -1)) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; N3: i3 = q(3, i3); goto C3; L3:; if (!((c < a) || (b != -1))) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r335(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (b & 7); if (s3 == -1) goto S3_0; goto D3; S3_0:; ; T = T * 31 + 4; if (!((i1 < 0) && (i1))) goto J5; T = T * 31 + 5; { *err = 1; return 0; } J5:; T = T * 31 + 6; goto B3; D3:; T = T * 31 + 7; ; B3:; if (!((b) || (i1 > 1))) goto J6; T = T * 31 + 8; { *err = 1; return 0; } J6:; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r336(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!(c <= 7)) goto J5; T = T * 31 + 4; { ex = 1; goto V3; } J5:; T = T * 31 + 5; V3:; if (ex) { T = T * 31 + 6; } if (!(!(i1 != 2))) goto J6; T = T * 31 + 7; { *err = 1; return 0; } J6:; T = T * 31 + 8; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r337(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 3; if (!(i1)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; goto N3; L3:; if (!((i1 >= 1) && (a < a))) goto J6; T = T * 31 + 5; { *err = 1; return 0; } J6:; T = T * 31 + 6; N1: i1++; goto C1; L1:; T = T * 31 + 7; return 0; }
static int r338(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { -1, 0, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((a < i1) && (a < i1))) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; T = T * 31 + 5; N3: n3++; goto C3; L3:; if (!(c < a)) goto J6; T = T * 31 + 6; { *err = 1; return 0; } J6:; T = T * 31 + 7; N1: i1++; goto C1; L1:; T = T * 31 + 8; return 0; }
static int r339(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; ; if (!(c < 1)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; N1: i1++; goto C1; L1:; T = T * 31 + 5; return 0; }
static int r340(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; ; T = T * 31 + 3; i3 = 0; C3: if (!(i3 < 2)) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if (!(c < -1)) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; N3: i3 = q(4, i3); goto C3; L3:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 9; return 0; }
static int r341(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; ; T = T * 31 + 3; s3 = a; if (s3 == 7) goto S3_0; if (s3 == 3) goto S3_1; goto B3; S3_0:; v4 = p(5, a); T = T * 31 + 6; if (!((b < 7) && (a <= 2))) goto J5; T = T * 31 + 7; return 8; J5:; goto B3; S3_1:; T = T * 31 + 9; goto B3; B3:; if (!(i1 < 0)) goto J6; T = T * 31 + 10; return 11; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 12; return 0; }
static int r342(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; T = T * 31 + 3; ex = 0; ; T = T * 31 + 4; if (!((c) && (a < 1))) goto J5; T = T * 31 + 5; return 6; J5:; V3:; if (ex) { T = T * 31 + 7; } if (!(c < 2)) goto J6; T = T * 31 + 8; return 9; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r343(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!(!(c))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto N3; L3:; if (!(p(8, c))) goto J6; T = T * 31 + 9; return 10; J6:; T = T * 31 + 11; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 12; return 0; }
static int r344(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (a & 3))) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { -1, 0, 0 }; e3 = t[n3]; } ; T = T * 31 + 4; if (!(b < i1)) goto J5; T = T * 31 + 5; return 6; J5:; N3: n3++; goto C3; L3:; if (!(c == 7)) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r345(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; ; v4 = p(4, a); T = T * 31 + 5; if (!((i1 <= 0) && (a > 7))) goto J5; T = T * 31 + 6; return 7; J5:; ; if (!(!(i1))) goto J6; T = T * 31 + 8; return 9; J6:; N1: i1 = q(2, i1); goto C1; L1:; T = T * 31 + 10; return 0; }
static int r346(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; T = T * 31 + 4; if (!(!(c > 0))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; N3: i3 = q(3, i3); goto C3; L3:; if (!(!(w1 <= 1))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; goto N1; L1:; T = T * 31 + 11; return 0; }
static int r347(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; ; T = T * 31 + 2; s3 = (b & 7); if (s3 == 7) goto S3_0; if (s3 == 2) goto S3_1; goto D3; S3_0:; if (!(p(4, b))) goto J4; T = T * 31 + 5; return 6; J4:; goto B3; S3_1:; T = T * 31 + 7; goto B3; D3:; T = T * 31 + 8; if (!((b < 0) || (w1 < a))) goto J6; T = T * 31 + 9; return 10; J6:; T = T * 31 + 11; ; B3:; if (!(b != 7)) goto J7; T = T * 31 + 12; return 13; J7:; T = T * 31 + 14; goto N1; L1:; T = T * 31 + 15; return 0; }
static int r348(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; if (!(v4 < v4)) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } if (!((c >= 1) && (w1 <= 2))) goto J6; T = T * 31 + 9; return 10; J6:; T = T * 31 + 11; goto N1; L1:; T = T * 31 + 12; return 0; }
static int r349(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; ; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 3; if (!(!(c <= -1))) goto J5; T = T * 31 + 4; return 5; J5:; goto N3; L3:; T = T * 31 + 6; goto N1; L1:; T = T * 31 + 7; return 0; }
static int r350(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (c & 3))) goto L1; w1++; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 7, 7, 7, 0 }; e3 = t[n3]; } T = T * 31 + 4; if (!((b >= 2) || (e3 < 7))) goto J5; T = T * 31 + 5; return 6; J5:; N3: n3++; goto C3; L3:; if (!(p(7, c))) goto J6; T = T * 31 + 8; return 9; J6:; goto N1; L1:; T = T * 31 + 10; return 0; }
static int r351(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; ; T = T * 31 + 2; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(c <= 1)) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; ; if (!(c == 0)) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; goto N1; L1:; T = T * 31 + 10; return 0; }
static int r352(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!((a < e1) && (e1 < c))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; N3: i3 = q(3, i3); goto C3; L3:; if (!(!(e1 != -1))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; N1: n1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r353(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { 1, 0, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = b; if (s3 == 0) goto S3_0; if (s3 == 1) goto S3_1; goto B3; S3_0:; if (!((e1 <= -1) && (c < b))) goto J4; T = T * 31 + 4; return 5; J4:; goto B3; S3_1:; v5 = p(6, a); T = T * 31 + 7; if (!(v5 < c)) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; goto B3; B3:; T = T * 31 + 11; N1: n1++; goto C1; L1:; T = T * 31 + 12; return 0; }
static int r354(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { 0, -1, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if (!((a != -1) || (v2 < v2))) goto J5; T = T * 31 + 5; return 6; J5:; V3:; if (ex) { T = T * 31 + 7; } if (!(!(b))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; N1: n1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r355(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = p(3, a); T = T * 31 + 4; if (!((w3 < e1) || (b < c))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; goto N3; L3:; if (!(!(e1))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; N1: n1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r356(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { 7, 0, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { 7, 1, 0 }; e3 = t[n3]; } ; T = T * 31 + 3; if (!(e1 >= 0)) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; N3: n3++; goto C3; L3:; if (!(a < e1)) goto J6; T = T * 31 + 7; return 8; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r357(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { 1, -1, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; ; ; T = T * 31 + 4; if (!(a >= 0)) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; ; if (!(p(8, b))) goto J6; T = T * 31 + 9; return 10; J6:; N1: n1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r358(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, i4 = 0, v5 = 0; T = T * 31 + 1; s1 = p(2, a); if (s1 == 5) goto S1_0; if (s1 == -129) goto S1_1; if (s1 == 0) goto S1_2; if (s1 == 1000000) goto S1_2; if (s1 == 2) goto S1_2; if (s1 == 127) goto S1_3; if (s1 == -128) goto S1_3; if (s1 == -7) goto S1_3; if (s1 == 128) goto S1_4; goto D1; S1_0:; if (!(b <= 1)) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; v3 = p(5, a); T = T * 31 + 6; i4 = 0; C4: if (!(i4 < 2)) goto L4; v5 = 0; T += v5; v5 = 5; T = T * 31 + 8; if (!(v3 != -1)) goto J6; T = T * 31 + 9; return 10; J6:; N4: i4 = q(7, i4); goto C4; L4:; if (!(v3 < c)) goto J7; T = T * 31 + 11; return 12; J7:; T = T * 31 + 13; goto B1; S1_2:; T = T * 31 + 14; goto B1; S1_3:; T = T * 31 + 15; goto B1; S1_4:; T = T * 31 + 16; goto B1; D1:; T = T * 31 + 17; ; B1:; T = T * 31 + 18; return 0; }
static int r359(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, s4 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)a; if (s1 == 5) goto S1_0; if (s1 == 6) goto S1_1; if (s1 == 4) goto S1_2; if (s1 == 0) goto S1_2; if (s1 == 2) goto S1_3; if (s1 == 3) goto S1_4; goto B1; S1_0:; if (!(c < 2)) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; T = T * 31 + 6; goto B1; S1_3:; T = T * 31 + 7; goto B1; S1_4:; ; T = T * 31 + 8; s4 = p(9, c); if (s4 == 7) goto S4_0; if (s4 == 2) goto S4_1; goto B4; S4_0:; T = T * 31 + 10; if (!(b >= 7)) goto J6; T = T * 31 + 11; return 12; J6:; goto B4; S4_1:; T = T * 31 + 13; goto B4; B4:; if (!(a != 0)) goto J7; T = T * 31 + 14; return 15; J7:; goto B1; B1:; T = T * 31 + 16; return 0; }
static int r360(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = (c & 7); if (s1 == -128) goto S1_0; if (s1 == 5) goto S1_1; if (s1 == -1) goto S1_1; if (s1 == 97) goto S1_2; if (s1 == 128) goto S1_2; if (s1 == -7) goto S1_2; if (s1 == 0) goto S1_3; if (s1 == -129) goto S1_3; if (s1 == 127) goto S1_3; goto D1; S1_0:; if (!((c) || (b))) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 6; ex = 0; v5 = 0; T += v5; v5 = 5; T = T * 31 + 7; if (!(!(b > 0))) goto J6; T = T * 31 + 8; return 9; J6:; V4:; if (ex) { T = T * 31 + 10; } if (!(b)) goto J7; T = T * 31 + 11; return 12; J7:; goto B1; S1_3:; T = T * 31 + 13; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r361(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, w4 = 0, v5 = 0; T = T * 31 + 1; s1 = (int)(int8_t)c; if (s1 == -128) goto S1_0; if (s1 == -7) goto S1_0; if (s1 == 1) goto S1_0; if (s1 == -129) goto S1_1; if (s1 == INT32_MIN) goto S1_2; if (s1 == 2) goto S1_3; if (s1 == 1000000) goto S1_4; goto D1; S1_0:; if (!(c >= 1)) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; w4 = 0; N4: if (w4++ >= 2) goto L4; v5 = 0; T += v5; v5 = 5; T = T * 31 + 6; if (!(a)) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; goto N4; L4:; if (!(b < a)) goto J7; T = T * 31 + 10; return 11; J7:; T = T * 31 + 12; goto B1; S1_2:; T = T * 31 + 13; goto B1; S1_3:; T = T * 31 + 14; goto B1; S1_4:; T = T * 31 + 15; goto B1; D1:; T = T * 31 + 16; ; B1:; T = T * 31 + 17; return 0; }
static int r362(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, e4 = 0, n4 = 0, v5 = 0; T = T * 31 + 1; s1 = a; if (s1 == 0) goto S1_0; if (s1 == 2) goto S1_1; if (s1 == -128) goto S1_1; if (s1 == INT32_MIN) goto S1_1; if (s1 == -7) goto S1_2; if (s1 == 2147483647) goto S1_2; goto D1; S1_0:; if (!(!(c < 7))) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; v3 = p(5, a); T = T * 31 + 6; n4 = 0; C4: if (!(n4 < 0)) goto L4; { static const int t[] = { 0 }; e4 = t[n4]; } v5 = p(7, a); T = T * 31 + 8; T = T * 31 + 9; N4: n4++; goto C4; L4:; if (!(c)) goto J6; T = T * 31 + 10; return 11; J6:; T = T * 31 + 12; goto B1; S1_2:; T = T * 31 + 13; goto B1; D1:; T = T * 31 + 14; ; B1:; T = T * 31 + 15; return 0; }
static int r363(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0; T = T * 31 + 1; s1 = a; if (s1 == 7) goto S1_0; if (s1 == 1) goto S1_1; if (s1 == 2) goto S1_2; if (s1 == 5) goto S1_3; if (s1 == 6) goto S1_4; if (s1 == 4) goto S1_5; if (s1 == 3) goto S1_6; goto D1; S1_0:; if (!(c >= 2)) goto J2; T = T * 31 + 3; return 4; J2:; goto B1; S1_1:; T = T * 31 + 5; goto B1; S1_2:; T = T * 31 + 6; goto B1; S1_3:; T = T * 31 + 7; goto B1; S1_4:; T = T * 31 + 8; goto B1; S1_5:; v3 = 0; T += v3; v3 = 5; T = T * 31 + 9; ; v5 = p(10, a); T = T * 31 + 11; if (!(c < b)) goto J6; T = T * 31 + 12; return 13; J6:; ; if (!(b > 1)) goto J7; T = T * 31 + 14; return 15; J7:; T = T * 31 + 16; goto B1; S1_6:; T = T * 31 + 17; goto B1; D1:; T = T * 31 + 18; ; B1:; T = T * 31 + 19; return 0; }
static int r364(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (!(i3 < 3)) goto L3; v4 = p(5, a); T = T * 31 + 6; if (!(p(7, i3))) goto J5; T = T * 31 + 8; return 9; J5:; N3: i3 = q(4, i3); goto C3; L3:; if (!(b != 0)) goto J6; T = T * 31 + 10; return 11; J6:; T = T * 31 + 12; V1:; if (ex) { T = T * 31 + 13; } T = T * 31 + 14; return 0; }
static int r365(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = b; if (s3 == 7) goto S3_0; goto D3; S3_0:; ; T = T * 31 + 4; if (!((a == 1) && (b))) goto J5; T = T * 31 + 5; return 6; J5:; goto B3; D3:; T = T * 31 + 7; ; B3:; if (!(!(a > 0))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; V1:; if (ex) { T = T * 31 + 11; } T = T * 31 + 12; return 0; }
static int r366(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!(b)) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; V3:; if (ex) { T = T * 31 + 7; } if (!((c < a) || (a == -1))) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; V1:; if (ex) { T = T * 31 + 11; } T = T * 31 + 12; return 0; }
static int r367(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!((c < -1) || (w3 == -1))) goto J5; T = T * 31 + 4; return 5; J5:; goto N3; L3:; if (!(b != -1)) goto J6; T = T * 31 + 6; return 7; J6:; V1:; if (ex) { T = T * 31 + 8; } T = T * 31 + 9; return 0; }
static int r368(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = p(2, a); T = T * 31 + 3; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 1, 0, 0, 0 }; e3 = t[n3]; } T = T * 31 + 4; if (!(a <= -1)) goto J5; T = T * 31 + 5; return 6; J5:; N3: n3++; goto C3; L3:; if (!(!(a > 7))) goto J6; T = T * 31 + 7; return 8; J6:; V1:; if (ex) { T = T * 31 + 9; } T = T * 31 + 10; return 0; }
static int r369(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0; T = T * 31 + 1; ex = 0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ; v4 = p(3, a); T = T * 31 + 4; if (!(c < 7)) goto J5; T = T * 31 + 5; return 6; J5:; ; if (!((a <= 7) || (b < a))) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; V1:; if (ex) { T = T * 31 + 10; } T = T * 31 + 11; return 0; }
static int r370(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; T = T * 31 + 5; if (!(a)) goto J5; T = T * 31 + 6; return 7; J5:; T = T * 31 + 8; N3: i3 = q(4, i3); goto C3; L3:; N1: i1++; goto C1; L1:; T = T * 31 + 9; return 0; }
static int r371(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v5 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (c & 7); if (s3 == 4) goto S3_0; if (s3 == 0) goto S3_1; if (s3 == 2) goto S3_2; goto D3; S3_0:; if (!(!(c < b))) goto J4; T = T * 31 + 4; return 5; J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; S3_2:; ; T = T * 31 + 7; T = T * 31 + 8; goto B3; D3:; T = T * 31 + 9; ; B3:; N1: i1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r372(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(a)) goto J5; T = T * 31 + 4; return 5; J5:; T = T * 31 + 6; V3:; if (ex) { T = T * 31 + 7; } if (!(p(8, i1))) goto J6; T = T * 31 + 9; return 10; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r373(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, w3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; v2 = p(2, a); T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; ; T = T * 31 + 4; if (!(b >= 7)) goto J5; T = T * 31 + 5; return 6; J5:; goto N3; L3:; if (!(p(7, c))) goto J6; T = T * 31 + 8; return 9; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r374(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; ; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 1, -1, 1, 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; if (!(c <= -1)) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; N3: n3++; goto C3; L3:; if (!(b > 0)) goto J6; T = T * 31 + 8; return 9; J6:; T = T * 31 + 10; N1: i1++; goto C1; L1:; T = T * 31 + 11; return 0; }
static int r375(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; ; T = T * 31 + 3; if (!(p(4, a))) goto J5; T = T * 31 + 5; return 6; J5:; T = T * 31 + 7; ; if (!(!(b >= 7))) goto J6; T = T * 31 + 8; return 9; J6:; N1: i1++; goto C1; L1:; T = T * 31 + 10; return 0; }
static int r376(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, w5 = 0, v6 = 0, w8 = 0, v9 = 0, e10 = 0, n10 = 0, v11 = 0; T = T * 31 + 1; if ((c)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; w5 = 0; N5: if (!(w5 < (b & 3))) goto L5; w5++; ; T = T * 31 + 4; if (!(c <= 2)) goto J7; T = T * 31 + 5; return 6; J7:; goto N5; L5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } T = T * 31 + 9; goto E1; A1_0:; E1:; w8 = 0; N8: if (!(w8 < (c & 3))) goto L8; w8++; ; T = T * 31 + 10; n10 = 0; C10: if (!(n10 < 0)) goto L10; { static const int t[] = { 0 }; e10 = t[n10]; } T = T * 31 + 11; if (!(a)) goto J12; T = T * 31 + 12; return 13; J12:; N10: n10++; goto C10; L10:; if (!(w8 < w8)) goto J13; T = T * 31 + 14; goto L8; J13:; goto N8; L8:; return 0; }
static int r377(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, w6 = 0, v7 = 0, i10 = 0, v11 = 0, w12 = 0, v13 = 0; T = T * 31 + 1; if (!(p(2, c))) goto A1_0; T = T * 31 + 3; s3 = p(4, b); if (s3 == 2) goto S3_0; if (s3 == INT32_MIN) goto S3_0; if (s3 == 5) goto S3_0; if (s3 == 1000000) goto S3_1; if (s3 == 2147483647) goto S3_1; if (s3 == 128) goto S3_2; if (s3 == -1) goto S3_3; if (s3 == 127) goto S3_4; if (s3 == 1) goto S3_4; goto D3; S3_0:; if (!(b == 0)) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; S3_2:; T = T * 31 + 7; goto B3; S3_3:; T = T * 31 + 8; goto B3; S3_4:; v5 = p(9, a); T = T * 31 + 10; w6 = 0; N6: if (w6++ >= 2) goto L6; T = T * 31 + 11; if (!((b < b) && (w6 <= 0))) goto J8; T = T * 31 + 12; goto B3; J8:; T = T * 31 + 13; goto N6; L6:; if (!(p(14, c))) goto J9; T = T * 31 + 15; goto B3; J9:; T = T * 31 + 16; goto B3; D3:; T = T * 31 + 17; ; B3:; goto E1; A1_0:; E1:; i10 = 0; C10: if (i10 > 1) goto L10; ; T = T * 31 + 18; w12 = 0; N12: if (!(w12 < (c & 3))) goto L12; w12++; ; T = T * 31 + 19; if (!(c < 2)) goto J14; T = T * 31 + 20; goto N12; J14:; goto N12; L12:; if (!(!(c < b))) goto J15; T = T * 31 + 21; { *err = 1; return 0; } J15:; N10: i10++; goto C10; L10:; return 0; }
static int r378(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, w5 = 0, v6 = 0; T = T * 31 + 1; if (!((!(b < b)) || ((c > 1) || (c <= 2)))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; goto E1; A1_0:; E1:; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; w5 = 0; N5: if (!(w5 < (b & 3))) goto L5; w5++; ; T = T * 31 + 5; if (!(!(w5 < 1))) goto J7; T = T * 31 + 6; goto L5; J7:; goto N5; L5:; if (!(c < 2)) goto J8; T = T * 31 + 7; return 8; J8:; T = T * 31 + 9; V3:; if (ex) { T = T * 31 + 10; } return 0; }
static int r379(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, v10 = 0, s11 = 0, v13 = 0; T = T * 31 + 1; if (!((a) || ((b) || (c < b)))) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; if (!(c >= 7)) goto A1_1; ; T = T * 31 + 3; ex = 0; T = T * 31 + 4; if (!(a <= 2)) goto A5_0; T = T * 31 + 5; goto E5; A5_0:; if (!(b > 2)) goto A5_1; T = T * 31 + 6; goto E5; A5_1:; ; v6 = 0; T += v6; v6 = 5; T = T * 31 + 7; if (!(a <= 7)) goto J7; T = T * 31 + 8; { ex = 1; goto V3; } J7:; goto E5; A5_2:; E5:; if (!(c)) goto J8; T = T * 31 + 9; return 10; J8:; V3:; if (ex) { T = T * 31 + 11; } goto E1; A1_1:; if (!(p(12, a))) goto A1_2; T = T * 31 + 13; goto E1; A1_2:; E1:; if ((b)) goto A9_0; ; T = T * 31 + 14; s11 = p(15, c); if (s11 == -7) goto S11_0; if (s11 == -128) goto S11_1; goto D11; S11_0:; if (!(p(16, c))) goto J12; T = T * 31 + 17; goto B11; J12:; goto B11; S11_1:; T = T * 31 + 18; if (!((c < b) && (b < a))) goto J14; T = T * 31 + 19; goto B11; J14:; goto B11; D11:; T = T * 31 + 20; ; B11:; T = T * 31 + 21; goto E9; A9_0:; E9:; return 0; }
static int r380(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0, w5 = 0, v6 = 0, v9 = 0, v11 = 0, w14 = 0, v15 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < (b & 1))) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; if (!((c) || (i1))) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; w5 = 0; N5: if (w5++ >= 2) goto L5; ; T = T * 31 + 5; if (!(!(i1 > -1))) goto J7; T = T * 31 + 6; goto N5; J7:; goto N5; L5:; if (!((b) || (a < 7))) goto J8; T = T * 31 + 7; goto L1; J8:; T = T * 31 + 8; goto E3; A3_0:; ; v9 = p(9, a); T = T * 31 + 10; if (!((!(c == 0)) && (!(a < c)))) goto A10_0; T = T * 31 + 11; goto E10; A10_0:; ; v11 = p(12, a); T = T * 31 + 13; if (!(a < 1)) goto J12; T = T * 31 + 14; goto L1; J12:; T = T * 31 + 15; goto E10; A10_1:; E10:; if (!((i1) || (a < v9))) goto J13; T = T * 31 + 16; goto N1; J13:; goto E3; A3_1:; E3:; T = T * 31 + 17; N1: i1 = q(2, i1); goto C1; L1:; w14 = 0; N14: if (w14++ >= 2) goto L14; v15 = 0; T += v15; v15 = 5; T = T * 31 + 18; if (!(b < 0)) goto J16; T = T * 31 + 19; goto N14; J16:; goto N14; L14:; return 0; }
static int r381(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, v8 = 0, w9 = 0, v10 = 0; T = T * 31 + 1; if (!(!((a <= -1) && (c < 2)))) goto A1_0; T = T * 31 + 2; s3 = (c & 7); if (s3 == 6) goto S3_0; if (s3 == 3) goto S3_1; goto D3; S3_0:; if (!(!(a < c))) goto J4; T = T * 31 + 4; { *err = 1; return 0; } J4:; goto B3; S3_1:; T = T * 31 + 5; goto B3; D3:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 6; if (!(!(a == 2))) goto J6; T = T * 31 + 7; goto B3; J6:; T = T * 31 + 8; ; B3:; T = T * 31 + 9; goto E1; A1_0:; E1:; ; ; T = T * 31 + 10; w9 = 0; N9: if (!(w9 < (a & 3))) goto L9; w9++; v10 = p(11, a); T = T * 31 + 12; if (!((c <= 2) && (v10))) goto J11; T = T * 31 + 13; goto N9; J11:; goto N9; L9:; if (!(a != 7)) goto J12; T = T * 31 + 14; return 15; J12:; ; return 0; }
static int r382(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, i3 = 0, v4 = 0, v6 = 0, v10 = 0, i11 = 0, v12 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < 2)) goto L3; v4 = p(4, a); T = T * 31 + 5; if ((v4)) goto A5_0; v6 = p(6, a); T = T * 31 + 7; if (!(v6 >= 0)) goto J7; T = T * 31 + 8; goto L3; J7:; goto E5; A5_0:; E5:; if (!((c) || (i3 < c))) goto J8; T = T * 31 + 9; return 10; J8:; T = T * 31 + 11; N3: i3 = q(3, i3); goto C3; L3:; N1: i1++; goto C1; L1:; if ((!(a < a))) goto A9_0; v10 = 0; T += v10; v10 = 5; T = T * 31 + 12; i11 = 0; C11: if (!(i11 < 3)) goto L11; ; T = T * 31 + 14; if (!((i11 == 2) && (c))) goto J13; T = T * 31 + 15; goto N11; J13:; N11: i11 = q(13, i11); goto C11; L11:; if (!(a)) goto J14; T = T * 31 + 16; { *err = 1; return 0; } J14:; T = T * 31 + 17; goto E9; A9_0:; E9:; return 0; }
static int r383(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, w3 = 0, v4 = 0, w5 = 0, v6 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; s1 = b; if (s1 == 97) goto S1_0; goto D1; S1_0:; T = T * 31 + 3; w3 = 0; N3: if (w3++ >= 2) goto L3; T = T * 31 + 4; w5 = 0; N5: if (w5++ >= 2) goto L5; v6 = p(5, a); T = T * 31 + 6; if (!(c > 1)) goto J7; T = T * 31 + 7; { *err = 1; return 0; } J7:; T = T * 31 + 8; goto N5; L5:; if (!(!(w3))) goto J8; T = T * 31 + 9; goto L3; J8:; T = T * 31 + 10; goto N3; L3:; if (!(c > 2)) goto J9; T = T * 31 + 11; goto B1; J9:; goto B1; D1:; T = T * 31 + 12; ; B1:; if ((c <= -1)) goto A10_0; v11 = 0; T += v11; v11 = 5; T = T * 31 + 13; ex = 0; v13 = p(14, a); T = T * 31 + 15; if (!(v13 < 2)) goto J14; T = T * 31 + 16; { ex = 1; goto V12; } J14:; T = T * 31 + 17; V12:; if (ex) { T = T * 31 + 18; } if (!(b)) goto J15; T = T * 31 + 19; return 20; J15:; T = T * 31 + 21; goto E10; A10_0:; E10:; return 0; }
static int r384(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0; T = T * 31 + 1; if (!((b > 1) || (p(2, c)))) goto A1_0; T = T * 31 + 3; goto E1; A1_0:; ; ; T = T * 31 + 4; goto E1; A1_1:; E1:; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; if ((b < a)) goto A5_0; ; T = T * 31 + 6; goto E5; A5_0:; E5:; T = T * 31 + 7; V3:; if (ex) { T = T * 31 + 8; } return 0; }
static int r385(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v5 = 0, w6 = 0, v7 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { -1, -1, -1, 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(b < c)) goto J3; T = T * 31 + 3; { *err = 1; return 0; } J3:; N1: n1++; goto C1; L1:; ; v5 = p(4, a); T = T * 31 + 5; w6 = 0; N6: if (!(w6 < (a & 3))) goto L6; w6++; T = T * 31 + 6; if (!(a <= 1)) goto J8; T = T * 31 + 7; { *err = 1; return 0; } J8:; T = T * 31 + 8; goto N6; L6:; if (!(v5 < a)) goto J9; T = T * 31 + 9; { *err = 1; return 0; } J9:; ; return 0; }
static int r386(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v5 = 0, v7 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; if (!(b)) goto J3; T = T * 31 + 4; goto L1; J3:; T = T * 31 + 5; N1: i1 = q(2, i1); goto C1; L1:; ex = 0; v5 = 0; T += v5; v5 = 5; T = T * 31 + 6; if ((a)) goto A6_0; T = T * 31 + 7; if (!(a)) goto J8; T = T * 31 + 8; return 9; J8:; goto E6; A6_0:; E6:; if (!((a != 7) && (c == 7))) goto J9; T = T * 31 + 10; return 11; J9:; T = T * 31 + 12; V4:; if (ex) { T = T * 31 + 13; } return 0; }
static int r387(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, v7 = 0, w10 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; ; v2 = p(2, a); T = T * 31 + 3; s3 = b; if (s3 == 4) goto S3_0; goto D3; S3_0:; if (!(!(v2 < 0))) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; D3:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 6; if ((c == 2)) goto A6_0; v7 = p(7, a); T = T * 31 + 8; T = T * 31 + 9; goto E6; A6_0:; ; T = T * 31 + 10; goto E6; A6_1:; E6:; if (!(a)) goto J8; T = T * 31 + 11; goto B3; J8:; T = T * 31 + 12; ; B3:; if (!(c < c)) goto J9; T = T * 31 + 13; { *err = 1; return 0; } J9:; T = T * 31 + 14; ; w10 = 0; N10: if (!(w10 < (b & 3))) goto L10; w10++; v11 = p(15, a); T = T * 31 + 16; if ((w10 > 0)) goto A12_0; v13 = 0; T += v13; v13 = 5; T = T * 31 + 17; if (!(p(18, a))) goto J14; T = T * 31 + 19; return 20; J14:; T = T * 31 + 21; goto E12; A12_0:; E12:; goto N10; L10:; return 0; }
static int r388(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0, s7 = 0, v8 = 0, e9 = 0, n9 = 0, v10 = 0; T = T * 31 + 1; s1 = (int)(int8_t)c; if (s1 == 97) goto S1_0; goto D1; S1_0:; if (!(c < a)) goto J2; T = T * 31 + 3; { *err = 1; return 0; } J2:; goto B1; D1:; T = T * 31 + 4; if ((p(5, a))) goto A4_0; T = T * 31 + 6; if (!((b) && (a != 2))) goto J6; T = T * 31 + 7; return 8; J6:; T = T * 31 + 9; goto E4; A4_0:; E4:; T = T * 31 + 10; ; B1:; s7 = p(11, c); if (s7 == 2147483647) goto S7_0; if (s7 == -128) goto S7_0; goto B7; S7_0:; v8 = p(12, a); T = T * 31 + 13; n9 = 0; C9: if (!(n9 < 0)) goto L9; { static const int t[] = { 0 }; e9 = t[n9]; } v10 = 0; T += v10; v10 = 5; T = T * 31 + 14; if (!((a >= 1) || (a))) goto J11; T = T * 31 + 15; { *err = 1; return 0; } J11:; N9: n9++; goto C9; L9:; if (!(c)) goto J12; T = T * 31 + 16; { *err = 1; return 0; } J12:; T = T * 31 + 17; goto B7; B7:; return 0; }
static int r389(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0, e5 = 0, n5 = 0, v6 = 0, s9 = 0, v10 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } T = T * 31 + 2; ; v4 = p(3, a); T = T * 31 + 4; n5 = 0; C5: if (!(n5 < 2)) goto L5; { static const int t[] = { 7, 0, 0 }; e5 = t[n5]; } v6 = p(5, a); T = T * 31 + 6; if (!(c >= -1)) goto J7; T = T * 31 + 7; goto L5; J7:; T = T * 31 + 8; N5: n5++; goto C5; L5:; if (!(a > 1)) goto J8; T = T * 31 + 9; goto N1; J8:; ; N1: n1++; goto C1; L1:; s9 = p(10, c); if (s9 == 2) goto S9_0; if (s9 == 6) goto S9_0; goto B9; S9_0:; T = T * 31 + 11; goto B9; B9:; return 0; }
static int r390(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, v4 = 0, v6 = 0, v11 = 0, v13 = 0, v16 = 0, v18 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 3)) goto L1; ; T = T * 31 + 3; if (!(i1 != 1)) goto A3_0; T = T * 31 + 4; if (!((!(c >= 1)) || ((i1 < a) || (a <= -1)))) goto A5_0; v6 = p(5, a); T = T * 31 + 6; if (!((i1 > 7) && (i1 > 7))) goto J7; T = T * 31 + 7; goto L1; J7:; T = T * 31 + 8; goto E5; A5_0:; ; T = T * 31 + 9; goto E5; A5_1:; E5:; if (!(c < b)) goto J8; T = T * 31 + 10; { *err = 1; return 0; } J8:; goto E3; A3_0:; if (!(!((i1 > 7) && (b > 7)))) goto A3_1; T = T * 31 + 11; goto E3; A3_1:; E3:; if (!((i1) && (a == 1))) goto J9; T = T * 31 + 12; { *err = 1; return 0; } J9:; N1: i1 = q(2, i1); goto C1; L1:; if (!(p(13, c))) goto A10_0; T = T * 31 + 14; if (!(c)) goto A12_0; v13 = 0; T += v13; v13 = 5; T = T * 31 + 15; if (!(a > 2)) goto J14; T = T * 31 + 16; return 17; J14:; goto E12; A12_0:; if (!(c <= 1)) goto A12_1; T = T * 31 + 18; goto E12; A12_1:; ; T = T * 31 + 19; goto E12; A12_2:; E12:; if (!(c <= 1)) goto J15; T = T * 31 + 20; return 21; J15:; goto E10; A10_0:; if (!(b)) goto A10_1; T = T * 31 + 22; goto E10; A10_1:; if (!(a < 1)) goto A10_2; T = T * 31 + 23; goto E10; A10_2:; ; v16 = 0; T += v16; v16 = 5; T = T * 31 + 24; if ((a <= 1)) goto A17_0; v18 = 0; T += v18; v18 = 5; T = T * 31 + 25; if (!(a > 1)) goto J19; T = T * 31 + 26; return 27; J19:; T = T * 31 + 28; goto E17; A17_0:; ; T = T * 31 + 29; goto E17; A17_1:; E17:; if (!(b <= 1)) goto J20; T = T * 31 + 30; return 31; J20:; goto E10; A10_3:; E10:; return 0; }
static int r391(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0, v7 = 0, s8 = 0, v10 = 0, v13 = 0, i14 = 0, v15 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { -1, 1, -1, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(b < i3)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; N3: i3++; goto C3; L3:; T = T * 31 + 5; N1: n1++; goto C1; L1:; if (!(b < 2)) goto A6_0; v7 = p(6, a); T = T * 31 + 7; s8 = a; if (s8 == 3) goto S8_0; if (s8 == 1) goto S8_1; if (s8 == 5) goto S8_2; if (s8 == 4) goto S8_3; if (s8 == 7) goto S8_4; if (s8 == 0) goto S8_5; if (s8 == 6) goto S8_6; goto D8; S8_0:; if (!(a == 2)) goto J9; T = T * 31 + 9; goto B8; J9:; goto B8; S8_1:; T = T * 31 + 10; goto B8; S8_2:; T = T * 31 + 11; goto B8; S8_3:; T = T * 31 + 12; goto B8; S8_4:; T = T * 31 + 13; goto B8; S8_5:; ; T = T * 31 + 14; if (!(b < 2)) goto J11; T = T * 31 + 15; return 16; J11:; T = T * 31 + 17; goto B8; S8_6:; T = T * 31 + 18; goto B8; D8:; T = T * 31 + 19; ; B8:; if (!(b)) goto J12; T = T * 31 + 20; { *err = 1; return 0; } J12:; T = T * 31 + 21; goto E6; A6_0:; ; v13 = p(22, a); T = T * 31 + 23; i14 = 0; C14: if (i14 > 1) goto L14; v15 = 0; T += v15; v15 = 5; T = T * 31 + 24; if (!((c < v13) && (c < c))) goto J16; T = T * 31 + 25; return 26; J16:; T = T * 31 + 27; N14: i14++; goto C14; L14:; if (!(b >= 2)) goto J17; T = T * 31 + 28; { *err = 1; return 0; } J17:; goto E6; A6_1:; E6:; return 0; }
static int r392(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; ; T = T * 31 + 2; T = T * 31 + 3; goto N1; L1:; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { 0, 1, 0 }; e3 = t[n3]; } ; T = T * 31 + 4; if (!(a)) goto J5; T = T * 31 + 5; goto N3; J5:; N3: n3++; goto C3; L3:; return 0; }
static int r393(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0, w5 = 0, v6 = 0, w10 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; if ((b)) goto A1_0; T = T * 31 + 2; w3 = 0; N3: if (!(w3 < (a & 3))) goto L3; w3++; ; T = T * 31 + 3; w5 = 0; N5: if (w5++ >= 2) goto L5; ; T = T * 31 + 4; if (!(p(5, w3))) goto J7; T = T * 31 + 6; goto L5; J7:; goto N5; L5:; if (!((c == 1) || (a < b))) goto J8; T = T * 31 + 7; goto L3; J8:; goto N3; L3:; if (!(p(8, b))) goto J9; T = T * 31 + 9; { *err = 1; return 0; } J9:; T = T * 31 + 10; goto E1; A1_0:; E1:; w10 = 0; N10: if (w10++ >= 2) goto L10; v11 = 0; T += v11; v11 = 5; T = T * 31 + 11; ; T = T * 31 + 12; if (!(p(13, c))) goto J14; T = T * 31 + 14; goto L10; J14:; ; if (!(c < 2)) goto J15; T = T * 31 + 15; goto N10; J15:; goto N10; L10:; return 0; }
static int r394(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0, v6 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; goto N1; L1:; n3 = 0; C3: if (!(n3 < 0)) goto L3; { static const int t[] = { 0 }; e3 = t[n3]; } v4 = p(3, a); T = T * 31 + 4; ; v6 = p(5, a); T = T * 31 + 6; T = T * 31 + 7; ; if (!((v4 <= 1) || (b))) goto J7; T = T * 31 + 8; { *err = 1; return 0; } J7:; T = T * 31 + 9; N3: n3++; goto C3; L3:; return 0; }
static int r395(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, w5 = 0, v6 = 0, s10 = 0, v12 = 0, i13 = 0, v14 = 0; T = T * 31 + 1; if (!(c < c)) goto A1_0; ; T = T * 31 + 2; if (!(c < c)) goto A3_0; T = T * 31 + 3; goto E3; A3_0:; ; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; w5 = 0; N5: if (!(w5 < (b & 3))) goto L5; w5++; ; T = T * 31 + 5; if (!(!(a < a))) goto J7; T = T * 31 + 6; { *err = 1; return 0; } J7:; goto N5; L5:; if (!(c < b)) goto J8; T = T * 31 + 7; return 8; J8:; T = T * 31 + 9; goto E3; A3_1:; E3:; if (!(c)) goto J9; T = T * 31 + 10; return 11; J9:; T = T * 31 + 12; goto E1; A1_0:; E1:; s10 = (int)(int8_t)a; if (s10 == 3) goto S10_0; goto D10; S10_0:; if (!(a < b)) goto J11; T = T * 31 + 14; goto B10; J11:; goto B10; D10:; T = T * 31 + 15; i13 = 0; C13: if (i13 > 1) goto L13; T = T * 31 + 16; if (!(b >= 1)) goto J15; T = T * 31 + 17; goto L13; J15:; T = T * 31 + 18; N13: i13++; goto C13; L13:; if (!(c > 7)) goto J16; T = T * 31 + 19; goto B10; J16:; T = T * 31 + 20; ; B10:; return 0; }
static int r396(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v7 = 0, v9 = 0; T = T * 31 + 1; if (!((c >= 2) || (c != -1))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; ex = 0; T = T * 31 + 3; if (!(c >= 2)) goto J5; T = T * 31 + 4; { ex = 1; goto V3; } J5:; V3:; if (ex) { T = T * 31 + 5; } goto E1; A1_0:; ; T = T * 31 + 6; goto E1; A1_1:; E1:; if ((b >= 2)) goto A6_0; T = T * 31 + 7; goto E6; A6_0:; ; ; T = T * 31 + 8; if (((p(9, b)) && (b >= 1))) goto A8_0; T = T * 31 + 10; if (!(!(b < 0))) goto J10; T = T * 31 + 11; return 12; J10:; T = T * 31 + 13; goto E8; A8_0:; E8:; if (!((c >= -1) && (b < 0))) goto J11; T = T * 31 + 14; { *err = 1; return 0; } J11:; goto E6; A6_1:; E6:; return 0; }
static int r397(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0, s5 = 0, v6 = 0, s9 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (a & 3))) goto L3; T = T * 31 + 4; s5 = a; if (s5 == 6) goto S5_0; goto B5; S5_0:; T = T * 31 + 6; if (!(p(7, a))) goto J7; T = T * 31 + 8; { *err = 1; return 0; } J7:; T = T * 31 + 9; goto B5; B5:; N3: i3 = q(3, i3); goto C3; L3:; if (!(p(10, b))) goto J8; T = T * 31 + 11; goto L1; J8:; T = T * 31 + 12; goto N1; L1:; s9 = p(13, c); if (s9 == 2) goto S9_0; if (s9 == 1) goto S9_1; if (s9 == 4) goto S9_2; if (s9 == 0) goto S9_3; if (s9 == 7) goto S9_4; if (s9 == 6) goto S9_4; goto D9; S9_0:; if (!(c >= 1)) goto J10; T = T * 31 + 14; goto B9; J10:; goto B9; S9_1:; ; T = T * 31 + 15; if ((c <= 2)) goto A12_0; T = T * 31 + 16; if (!(b != 1)) goto J14; T = T * 31 + 17; { *err = 1; return 0; } J14:; T = T * 31 + 18; goto E12; A12_0:; E12:; if (!((a <= 2) && (c == 0))) goto J15; T = T * 31 + 19; goto B9; J15:; T = T * 31 + 20; goto B9; S9_2:; T = T * 31 + 21; goto B9; S9_3:; T = T * 31 + 22; goto B9; S9_4:; T = T * 31 + 23; goto B9; D9:; T = T * 31 + 24; ; B9:; return 0; }
static int r398(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, i9 = 0, v10 = 0, e11 = 0, n11 = 0, v12 = 0; T = T * 31 + 1; if (!(c <= 1)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(a)) goto A3_0; T = T * 31 + 3; ; T = T * 31 + 4; if (!((c <= 0) || (a < -1))) goto J7; T = T * 31 + 5; { *err = 1; return 0; } J7:; ; if (!(!(b >= 2))) goto J8; T = T * 31 + 6; return 7; J8:; T = T * 31 + 8; goto E3; A3_0:; ; T = T * 31 + 9; goto E3; A3_1:; E3:; goto E1; A1_0:; E1:; i9 = 0; C9: if (!(i9 < (b & 1))) goto L9; v10 = p(11, a); T = T * 31 + 12; n11 = 0; C11: if (!(n11 < 3)) goto L11; { static const int t[] = { 7, 1, -1, 0 }; e11 = t[n11]; } ; T = T * 31 + 13; if (!((c > -1) && (i9 <= 2))) goto J13; T = T * 31 + 14; goto L11; J13:; T = T * 31 + 15; N11: n11++; goto C11; L11:; if (!(b >= 0)) goto J14; T = T * 31 + 16; { *err = 1; return 0; } J14:; N9: i9 = q(10, i9); goto C9; L9:; return 0; }
static int r399(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0, w5 = 0, v6 = 0, s9 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; if (((p(2, b)) && ((b > 1) && (c)))) goto A1_0; T = T * 31 + 3; goto E1; A1_0:; ; v2 = 0; T += v2; v2 = 5; T = T * 31 + 4; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { -1, 1, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; w5 = 0; N5: if (!(w5 < (a & 3))) goto L5; w5++; v6 = 0; T += v6; v6 = 5; T = T * 31 + 6; if (!((a == 0) && (b <= 2))) goto J7; T = T * 31 + 7; goto L5; J7:; T = T * 31 + 8; goto N5; L5:; if (!(e3 != 0)) goto J8; T = T * 31 + 9; goto N3; J8:; N3: n3++; goto C3; L3:; T = T * 31 + 10; goto E1; A1_1:; E1:; s9 = p(11, b); if (s9 == -129) goto S9_0; if (s9 == 1) goto S9_1; if (s9 == INT32_MIN) goto S9_2; if (s9 == 2) goto S9_2; if (s9 == 128) goto S9_2; if (s9 == 127) goto S9_3; goto B9; S9_0:; if (!(!(b < c))) goto J10; T = T * 31 + 12; goto B9; J10:; goto B9; S9_1:; T = T * 31 + 13; goto B9; S9_2:; T = T * 31 + 14; goto B9; S9_3:; v11 = p(15, a); T = T * 31 + 16; if (!((b) || (v11))) goto A12_0; v13 = 0; T += v13; v13 = 5; T = T * 31 + 17; if (!((v11) || (c >= 1))) goto J14; T = T * 31 + 18; goto B9; J14:; T = T * 31 + 19; goto E12; A12_0:; E12:; if (!(p(20, v11))) goto J15; T = T * 31 + 21; goto B9; J15:; T = T * 31 + 22; goto B9; B9:; return 0; }
static int r400(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s4 = 0, v6 = 0, v8 = 0; T = T * 31 + 1; i1 = 0; C1: if (!(i1 < 2)) goto L1; T = T * 31 + 3; if (!((c < -1) || (b >= 0))) goto J3; T = T * 31 + 4; { *err = 1; return 0; } J3:; T = T * 31 + 5; N1: i1 = q(2, i1); goto C1; L1:; s4 = p(6, a); if (s4 == 1000000) goto S4_0; if (s4 == 2) goto S4_0; if (s4 == 97) goto S4_1; if (s4 == 1) goto S4_2; if (s4 == -7) goto S4_3; if (s4 == 128) goto S4_3; if (s4 == 0) goto S4_4; if (s4 == 5) goto S4_5; goto D4; S4_0:; if (!((c < b) && (b < b))) goto J5; T = T * 31 + 7; { *err = 1; return 0; } J5:; goto B4; S4_1:; ; T = T * 31 + 8; ex = 0; v8 = p(9, a); T = T * 31 + 10; if (!(a < v8)) goto J9; T = T * 31 + 11; goto B4; J9:; V7:; if (ex) { T = T * 31 + 12; } T = T * 31 + 13; goto B4; S4_2:; T = T * 31 + 14; goto B4; S4_3:; T = T * 31 + 15; goto B4; S4_4:; T = T * 31 + 16; goto B4; S4_5:; T = T * 31 + 17; goto B4; D4:; T = T * 31 + 18; ; B4:; return 0; }
static int r401(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, s6 = 0, v8 = 0, v13 = 0, s14 = 0, v15 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; s3 = p(3, b); if (s3 == 0) goto S3_0; if (s3 == 5) goto S3_0; if (s3 == 2) goto S3_1; goto B3; S3_0:; if (!(c < b)) goto J4; T = T * 31 + 4; goto B3; J4:; goto B3; S3_1:; v5 = p(5, a); T = T * 31 + 6; s6 = (c & 7); if (s6 == 2) goto S6_0; goto D6; S6_0:; if (!(!(b))) goto J7; T = T * 31 + 8; goto B6; J7:; goto B6; D6:; v8 = 0; T += v8; v8 = 5; T = T * 31 + 9; if (!(p(10, b))) goto J9; T = T * 31 + 11; goto B6; J9:; ; B6:; if (!(a != -1)) goto J10; T = T * 31 + 12; return 13; J10:; goto B3; B3:; if (!(c <= -1)) goto J11; T = T * 31 + 14; return 15; J11:; V1:; if (ex) { T = T * 31 + 16; } if (!(p(17, b))) goto A12_0; ; T = T * 31 + 18; s14 = (a & 7); if (s14 == 128) goto S14_0; if (s14 == -129) goto S14_1; if (s14 == 2147483647) goto S14_1; goto D14; S14_0:; v15 = 0; T += v15; v15 = 5; T = T * 31 + 20; if (!(a < c)) goto J16; T = T * 31 + 21; { *err = 1; return 0; } J16:; goto B14; S14_1:; T = T * 31 + 22; goto B14; D14:; T = T * 31 + 23; ; B14:; if (!(a)) goto J17; T = T * 31 + 24; { *err = 1; return 0; } J17:; T = T * 31 + 25; goto E12; A12_0:; E12:; return 0; }
static int r402(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, s6 = 0, v8 = 0; T = T * 31 + 1; if ((a < -1)) goto A1_0; ; T = T * 31 + 2; goto E1; A1_0:; E1:; s3 = (int)(int8_t)c; if (s3 == 5) goto S3_0; if (s3 == 2) goto S3_1; if (s3 == 7) goto S3_1; if (s3 == 4) goto S3_1; if (s3 == 0) goto S3_2; if (s3 == 3) goto S3_2; if (s3 == 6) goto S3_2; goto B3; S3_0:; if (!((b == 7) || (c >= 2))) goto J4; T = T * 31 + 4; return 5; J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; S3_2:; v5 = 0; T += v5; v5 = 5; T = T * 31 + 7; s6 = p(8, b); if (s6 == 4) goto S6_0; if (s6 == 0) goto S6_1; if (s6 == 6) goto S6_2; if (s6 == 2) goto S6_2; if (s6 == 5) goto S6_3; if (s6 == 1) goto S6_4; if (s6 == 3) goto S6_5; goto D6; S6_0:; if (!(c < 7)) goto J7; T = T * 31 + 9; goto B6; J7:; goto B6; S6_1:; v8 = p(10, a); T = T * 31 + 11; if (!((c >= -1) && (b < b))) goto J9; T = T * 31 + 12; { *err = 1; return 0; } J9:; T = T * 31 + 13; goto B6; S6_2:; T = T * 31 + 14; goto B6; S6_3:; T = T * 31 + 15; goto B6; S6_4:; T = T * 31 + 16; goto B6; S6_5:; T = T * 31 + 17; goto B6; D6:; T = T * 31 + 18; ; B6:; if (!((a != -1) && (c < b))) goto J10; T = T * 31 + 19; { *err = 1; return 0; } J10:; T = T * 31 + 20; goto B3; B3:; return 0; }
static int r403(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, i6 = 0, v7 = 0, w10 = 0, v11 = 0, w12 = 0, v13 = 0; T = T * 31 + 1; if (!((a < 1) && (b == -1))) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; ; ; T = T * 31 + 3; s3 = (c & 7); if (s3 == 7) goto S3_0; if (s3 == 3) goto S3_1; if (s3 == 6) goto S3_2; if (s3 == 0) goto S3_3; if (s3 == 1) goto S3_4; if (s3 == 4) goto S3_4; if (s3 == 5) goto S3_5; goto B3; S3_0:; if (!(c)) goto J4; T = T * 31 + 5; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; S3_2:; T = T * 31 + 7; goto B3; S3_3:; T = T * 31 + 8; goto B3; S3_4:; ; T = T * 31 + 9; i6 = 0; C6: if (!(i6 < 2)) goto L6; T = T * 31 + 11; T = T * 31 + 12; N6: i6 = q(10, i6); goto C6; L6:; if (!(c >= 2)) goto J8; T = T * 31 + 13; goto B3; J8:; goto B3; S3_5:; T = T * 31 + 14; goto B3; B3:; if (!(c <= 0)) goto J9; T = T * 31 + 15; return 16; J9:; goto E1; A1_1:; E1:; w10 = 0; N10: if (w10++ >= 2) goto L10; v11 = 0; T += v11; v11 = 5; T = T * 31 + 17; w12 = 0; N12: if (w12++ >= 2) goto L12; ; T = T * 31 + 18; if (!(w10)) goto J14; T = T * 31 + 19; goto L12; J14:; goto N12; L12:; if (!(w10 == 0)) goto J15; T = T * 31 + 20; goto N10; J15:; goto N10; L10:; return 0; }
static int r404(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, e5 = 0, n5 = 0, v6 = 0, s9 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; if (!(((a) && (c != 7)) || (!(a)))) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if (!(p(4, c))) goto A3_0; T = T * 31 + 5; goto E3; A3_0:; if (!(v2 != -1)) goto A3_1; T = T * 31 + 6; goto E3; A3_1:; if (!(p(7, a))) goto A3_2; v4 = p(8, a); T = T * 31 + 9; n5 = 0; C5: if (!(n5 < 3)) goto L5; { static const int t[] = { 1, -1, -1, 0 }; e5 = t[n5]; } v6 = p(10, a); T = T * 31 + 11; if (!(a <= 7)) goto J7; T = T * 31 + 12; goto N5; J7:; T = T * 31 + 13; N5: n5++; goto C5; L5:; if (!(p(14, b))) goto J8; T = T * 31 + 15; { *err = 1; return 0; } J8:; goto E3; A3_2:; E3:; T = T * 31 + 16; goto E1; A1_0:; E1:; s9 = (a & 7); if (s9 == -1) goto S9_0; goto D9; S9_0:; if (!(b)) goto J10; T = T * 31 + 18; return 19; J10:; goto B9; D9:; v11 = 0; T += v11; v11 = 5; T = T * 31 + 20; if ((b < a)) goto A12_0; ; T = T * 31 + 21; goto E12; A12_0:; ; T = T * 31 + 22; goto E12; A12_1:; E12:; if (!(c)) goto J14; T = T * 31 + 23; return 24; J14:; ; B9:; return 0; }
static int r405(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0, v6 = 0, i10 = 0, v11 = 0, s12 = 0, v13 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 0, 1, 0, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; ; v6 = p(4, a); T = T * 31 + 5; if (!(w1)) goto J7; T = T * 31 + 6; goto L3; J7:; T = T * 31 + 7; ; if (!(b)) goto J8; T = T * 31 + 8; return 9; J8:; N3: n3++; goto C3; L3:; if (!(c)) goto J9; T = T * 31 + 10; goto N1; J9:; goto N1; L1:; i10 = 0; C10: if (!(i10 < (b & 1))) goto L10; T = T * 31 + 12; s12 = (i10 & 7); if (s12 == 5) goto S12_0; if (s12 == 7) goto S12_1; goto D12; S12_0:; v13 = p(14, a); T = T * 31 + 15; if (!(v13 == 7)) goto J14; T = T * 31 + 16; { *err = 1; return 0; } J14:; T = T * 31 + 17; goto B12; S12_1:; T = T * 31 + 18; goto B12; D12:; T = T * 31 + 19; ; B12:; if (!(a == -1)) goto J15; T = T * 31 + 20; goto L10; J15:; N10: i10 = q(11, i10); goto C10; L10:; return 0; }
static int r406(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v3 = 0, v5 = 0, w8 = 0, v9 = 0, i10 = 0, v11 = 0; T = T * 31 + 1; s1 = (int)(int8_t)a; if (s1 == -128) goto S1_0; if (s1 == -129) goto S1_1; goto D1; S1_0:; if (!(b)) goto J2; T = T * 31 + 3; goto B1; J2:; goto B1; S1_1:; T = T * 31 + 4; if ((a != 1)) goto A4_0; T = T * 31 + 5; goto E4; A4_0:; ; v5 = p(6, a); T = T * 31 + 7; if (!(p(8, c))) goto J6; T = T * 31 + 9; goto B1; J6:; T = T * 31 + 10; goto E4; A4_1:; E4:; if (!(b < 7)) goto J7; T = T * 31 + 11; return 12; J7:; goto B1; D1:; T = T * 31 + 13; ; B1:; w8 = 0; N8: if (w8++ >= 2) goto L8; T = T * 31 + 14; i10 = 0; C10: if (!(i10 < (a & 3))) goto L10; ; T = T * 31 + 16; if (!(!(b <= 0))) goto J12; T = T * 31 + 17; return 18; J12:; T = T * 31 + 19; N10: i10 = q(15, i10); goto C10; L10:; if (!(p(20, w8))) goto J13; T = T * 31 + 21; goto N8; J13:; goto N8; L8:; return 0; }
static int r407(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, v6 = 0, i9 = 0, v10 = 0; T = T * 31 + 1; ; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; ; T = T * 31 + 3; if (!(c <= -1)) goto A5_0; T = T * 31 + 4; goto E5; A5_0:; ; v6 = 0; T += v6; v6 = 5; T = T * 31 + 5; if (!(c < b)) goto J7; T = T * 31 + 6; goto L3; J7:; goto E5; A5_1:; E5:; if (!(b == -1)) goto J8; T = T * 31 + 7; return 8; J8:; N3: i3++; goto C3; L3:; ; i9 = 0; C9: if (i9 > 1) goto L9; T = T * 31 + 9; if (!(a == 2)) goto J11; T = T * 31 + 10; { *err = 1; return 0; } J11:; N9: i9++; goto C9; L9:; return 0; }
static int r408(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0, v6 = 0, w9 = 0, v10 = 0, v12 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; w3 = 0; N3: if (w3++ >= 2) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; ; ; T = T * 31 + 4; if (!(w3)) goto J7; T = T * 31 + 5; goto N3; J7:; T = T * 31 + 6; ; if (!(b <= -1)) goto J8; T = T * 31 + 7; return 8; J8:; T = T * 31 + 9; goto N3; L3:; V1:; if (ex) { T = T * 31 + 10; } w9 = 0; N9: if (!(w9 < (a & 3))) goto L9; w9++; ; T = T * 31 + 11; if (!(w9 <= 1)) goto A11_0; v12 = p(12, a); T = T * 31 + 13; if (!(v12)) goto J13; T = T * 31 + 14; goto L9; J13:; goto E11; A11_0:; E11:; if (!(w9 >= 1)) goto J14; T = T * 31 + 15; goto N9; J14:; goto N9; L9:; return 0; }
static int r409(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, v9 = 0, v11 = 0, v13 = 0, v15 = 0, s18 = 0, v20 = 0, v22 = 0; T = T * 31 + 1; if (!(a < c)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; if (!(a)) goto A1_1; T = T * 31 + 3; if ((((a < b) && (c != -1)) || (c > 2))) goto A3_0; T = T * 31 + 4; if ((((b <= 1) || (a <= 7)) && (p(5, b)))) goto A5_0; T = T * 31 + 6; goto E5; A5_0:; ; v6 = 0; T += v6; v6 = 5; T = T * 31 + 7; if (!(b)) goto J7; T = T * 31 + 8; { *err = 1; return 0; } J7:; goto E5; A5_1:; E5:; if (!(a != 0)) goto J8; T = T * 31 + 9; return 10; J8:; T = T * 31 + 11; goto E3; A3_0:; E3:; goto E1; A1_1:; if (!(c == 2)) goto A1_2; T = T * 31 + 12; if ((c)) goto A10_0; v11 = 0; T += v11; v11 = 5; T = T * 31 + 13; if (!(p(14, b))) goto J12; T = T * 31 + 15; { *err = 1; return 0; } J12:; goto E10; A10_0:; ; ; T = T * 31 + 16; if (!(a > 2)) goto A14_0; T = T * 31 + 17; if (!(b)) goto J16; T = T * 31 + 18; { *err = 1; return 0; } J16:; T = T * 31 + 19; goto E14; A14_0:; E14:; if (!(a)) goto J17; T = T * 31 + 20; { *err = 1; return 0; } J17:; T = T * 31 + 21; goto E10; A10_1:; E10:; goto E1; A1_2:; ; T = T * 31 + 22; goto E1; A1_3:; E1:; s18 = (b & 7); if (s18 == INT32_MIN) goto S18_0; if (s18 == -1) goto S18_0; if (s18 == 2) goto S18_0; if (s18 == 1000000) goto S18_1; if (s18 == 127) goto S18_2; if (s18 == -7) goto S18_2; if (s18 == 97) goto S18_2; if (s18 == 1) goto S18_3; if (s18 == 128) goto S18_3; goto D18; S18_0:; if (!(c < 1)) goto J19; T = T * 31 + 24; { *err = 1; return 0; } J19:; goto B18; S18_1:; T = T * 31 + 25; goto B18; S18_2:; T = T * 31 + 26; goto B18; S18_3:; T = T * 31 + 27; goto B18; D18:; v20 = p(28, a); T = T * 31 + 29; if (!(a)) goto A21_0; T = T * 31 + 30; goto E21; A21_0:; if (!((v20) && ((b <= 7) && (v20 != 7)))) goto A21_1; T = T * 31 + 31; goto E21; A21_1:; if (!(v20 < c)) goto A21_2; v22 = 0; T += v22; v22 = 5; T = T * 31 + 32; if (!((a < a) && (c >= 0))) goto J23; T = T * 31 + 33; goto B18; J23:; T = T * 31 + 34; goto E21; A21_2:; ; T = T * 31 + 35; goto E21; A21_3:; E21:; if (!(a)) goto J24; T = T * 31 + 36; goto B18; J24:; ; B18:; return 0; }
static int r410(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, s6 = 0, v8 = 0, v10 = 0; T = T * 31 + 1; if ((b)) goto A1_0; ; T = T * 31 + 2; i3 = 0; C3: if (!(i3 < (b & 1))) goto L3; ; T = T * 31 + 4; if (!(a)) goto J5; T = T * 31 + 5; return 6; J5:; N3: i3 = q(3, i3); goto C3; L3:; goto E1; A1_0:; E1:; s6 = (int)(int8_t)b; if (s6 == 127) goto S6_0; if (s6 == 0) goto S6_1; if (s6 == -129) goto S6_2; if (s6 == 2) goto S6_3; if (s6 == 128) goto S6_4; if (s6 == -1) goto S6_5; goto D6; S6_0:; if (!(c >= 2)) goto J7; T = T * 31 + 8; goto B6; J7:; goto B6; S6_1:; T = T * 31 + 9; goto B6; S6_2:; T = T * 31 + 10; goto B6; S6_3:; T = T * 31 + 11; goto B6; S6_4:; T = T * 31 + 12; if (!(a)) goto A9_0; v10 = 0; T += v10; v10 = 5; T = T * 31 + 13; if (!(c <= 7)) goto J11; T = T * 31 + 14; goto B6; J11:; T = T * 31 + 15; goto E9; A9_0:; ; T = T * 31 + 16; goto E9; A9_1:; E9:; if (!(b)) goto J12; T = T * 31 + 17; goto B6; J12:; T = T * 31 + 18; goto B6; S6_5:; T = T * 31 + 19; goto B6; D6:; T = T * 31 + 20; ; B6:; return 0; }
static int r411(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, e3 = 0, n3 = 0, v4 = 0, s5 = 0, v7 = 0, v12 = 0, s13 = 0, v15 = 0; T = T * 31 + 1; if ((a)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; n3 = 0; C3: if (!(n3 < 2)) goto L3; { static const int t[] = { -1, -1, 0 }; e3 = t[n3]; } v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; s5 = (int)(int8_t)b; if (s5 == 97) goto S5_0; if (s5 == 1) goto S5_0; if (s5 == -7) goto S5_0; if (s5 == -128) goto S5_1; if (s5 == 2) goto S5_1; if (s5 == -129) goto S5_2; if (s5 == 2147483647) goto S5_3; if (s5 == INT32_MIN) goto S5_3; if (s5 == 0) goto S5_3; goto D5; S5_0:; if (!(e3 >= -1)) goto J6; T = T * 31 + 5; goto N3; J6:; goto B5; S5_1:; ; T = T * 31 + 6; if (!(e3 < -1)) goto J8; T = T * 31 + 7; return 8; J8:; goto B5; S5_2:; T = T * 31 + 9; goto B5; S5_3:; T = T * 31 + 10; goto B5; D5:; T = T * 31 + 11; ; B5:; if (!(e3 >= 0)) goto J9; T = T * 31 + 12; goto L3; J9:; N3: n3++; goto C3; L3:; if (!((c == 2) || (a < b))) goto J10; T = T * 31 + 13; { *err = 1; return 0; } J10:; T = T * 31 + 14; goto E1; A1_0:; ; T = T * 31 + 15; goto E1; A1_1:; E1:; ; v12 = 0; T += v12; v12 = 5; T = T * 31 + 16; s13 = a; if (s13 == 3) goto S13_0; if (s13 == 0) goto S13_1; if (s13 == 7) goto S13_2; if (s13 == 4) goto S13_3; if (s13 == 1) goto S13_3; if (s13 == 6) goto S13_4; if (s13 == 5) goto S13_5; if (s13 == 2) goto S13_6; goto B13; S13_0:; if (!((a > 2) && (a == 1))) goto J14; T = T * 31 + 18; { *err = 1; return 0; } J14:; goto B13; S13_1:; T = T * 31 + 19; goto B13; S13_2:; v15 = 0; T += v15; v15 = 5; T = T * 31 + 20; if (!(!(c))) goto J16; T = T * 31 + 21; goto B13; J16:; goto B13; S13_3:; T = T * 31 + 22; goto B13; S13_4:; T = T * 31 + 23; goto B13; S13_5:; T = T * 31 + 24; goto B13; S13_6:; T = T * 31 + 25; goto B13; B13:; if (!(c)) goto J17; T = T * 31 + 26; { *err = 1; return 0; } J17:; T = T * 31 + 27; ; return 0; }
static int r412(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, i3 = 0, v4 = 0, i5 = 0, v6 = 0, i10 = 0, v11 = 0, i12 = 0, v13 = 0; T = T * 31 + 1; ex = 0; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; v4 = p(3, a); T = T * 31 + 4; i5 = 0; C5: if (i5 > 1) goto L5; ; T = T * 31 + 5; if (!(i3 < a)) goto J7; T = T * 31 + 6; goto L5; J7:; T = T * 31 + 7; N5: i5++; goto C5; L5:; if (!(c > 1)) goto J8; T = T * 31 + 8; goto L3; J8:; N3: i3++; goto C3; L3:; if (!(!(a))) goto J9; T = T * 31 + 9; { ex = 1; goto V1; } J9:; V1:; if (ex) { T = T * 31 + 10; } i10 = 0; C10: if (!(i10 < (a & 3))) goto L10; ; T = T * 31 + 12; i12 = 0; C12: if (!(i12 < 2)) goto L12; v13 = p(14, a); T = T * 31 + 15; if (!((v13) || (v13 <= 1))) goto J14; T = T * 31 + 16; goto L12; J14:; T = T * 31 + 17; N12: i12 = q(13, i12); goto C12; L12:; if (!(i10 < 0)) goto J15; T = T * 31 + 18; goto L10; J15:; T = T * 31 + 19; N10: i10 = q(11, i10); goto C10; L10:; return 0; }
static int r413(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, e3 = 0, n3 = 0, v4 = 0, w5 = 0, v6 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = p(2, a); T = T * 31 + 3; goto N1; L1:; n3 = 0; C3: if (!(n3 < 3)) goto L3; { static const int t[] = { 7, 0, 7, 0 }; e3 = t[n3]; } ; T = T * 31 + 4; w5 = 0; N5: if (w5++ >= 2) goto L5; ; T = T * 31 + 5; if (!(b <= 2)) goto J7; T = T * 31 + 6; return 7; J7:; T = T * 31 + 8; goto N5; L5:; if (!(a < b)) goto J8; T = T * 31 + 9; goto N3; J8:; T = T * 31 + 10; N3: n3++; goto C3; L3:; return 0; }
static int r414(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, e10 = 0, n10 = 0, v11 = 0; T = T * 31 + 1; ; v2 = p(2, a); T = T * 31 + 3; if (((b <= 0) && (v2 != 0))) goto A3_0; v4 = p(4, a); T = T * 31 + 5; if (!(p(6, v2))) goto A5_0; T = T * 31 + 7; goto E5; A5_0:; if (!(p(8, b))) goto A5_1; T = T * 31 + 9; goto E5; A5_1:; if (!(p(10, c))) goto A5_2; T = T * 31 + 11; goto E5; A5_2:; ; ; T = T * 31 + 12; if (!(p(13, c))) goto J7; T = T * 31 + 14; { *err = 1; return 0; } J7:; T = T * 31 + 15; goto E5; A5_3:; E5:; if (!(v4 >= -1)) goto J8; T = T * 31 + 16; return 17; J8:; goto E3; A3_0:; ; T = T * 31 + 18; goto E3; A3_1:; E3:; if (!((b >= 2) && (b <= 0))) goto J9; T = T * 31 + 19; { *err = 1; return 0; } J9:; ; n10 = 0; C10: if (!(n10 < 3)) goto L10; { static const int t[] = { 1, 7, 0, 0 }; e10 = t[n10]; } T = T * 31 + 20; if (!((b != 0) && (e10 != 1))) goto J12; T = T * 31 + 21; goto N10; J12:; N10: n10++; goto C10; L10:; return 0; }
static int r415(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, w5 = 0, v6 = 0; T = T * 31 + 1; if ((c < c)) goto A1_0; v2 = p(2, a); T = T * 31 + 3; goto E1; A1_0:; ; T = T * 31 + 4; goto E1; A1_1:; E1:; ex = 0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 5; w5 = 0; N5: if (!(w5 < (c & 3))) goto L5; w5++; v6 = 0; T += v6; v6 = 5; T = T * 31 + 6; if (!((w5 > 7) && (a > 0))) goto J7; T = T * 31 + 7; goto L5; J7:; goto N5; L5:; if (!((c < c) && (a != 1))) goto J8; T = T * 31 + 8; { ex = 1; goto V3; } J8:; V3:; if (ex) { T = T * 31 + 9; } return 0; }
static int r416(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0, v6 = 0, v9 = 0, w10 = 0, v11 = 0, v15 = 0, v17 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if ((c >= -1)) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; if (!(p(4, c))) goto A5_0; v6 = 0; T += v6; v6 = 5; T = T * 31 + 5; if (!(c < a)) goto J7; T = T * 31 + 6; goto L1; J7:; T = T * 31 + 7; goto E5; A5_0:; ; T = T * 31 + 8; goto E5; A5_1:; E5:; if (!(e1 <= 7)) goto J8; T = T * 31 + 9; goto N1; J8:; goto E3; A3_0:; ; T = T * 31 + 10; w10 = 0; N10: if (!(w10 < (a & 3))) goto L10; w10++; ; T = T * 31 + 11; if (!(p(12, w10))) goto J12; T = T * 31 + 13; goto L10; J12:; T = T * 31 + 14; goto N10; L10:; if (!(c < b)) goto J13; T = T * 31 + 15; goto L1; J13:; T = T * 31 + 16; goto E3; A3_1:; E3:; T = T * 31 + 17; N1: n1++; goto C1; L1:; ex = 0; v15 = 0; T += v15; v15 = 5; T = T * 31 + 18; if (((b) && (!(b < 0)))) goto A16_0; T = T * 31 + 19; goto E16; A16_0:; ; v17 = 0; T += v17; v17 = 5; T = T * 31 + 20; if (!(b)) goto J18; T = T * 31 + 21; { ex = 1; goto V14; } J18:; T = T * 31 + 22; goto E16; A16_1:; E16:; if (!(c > 1)) goto J19; T = T * 31 + 23; return 24; J19:; V14:; if (ex) { T = T * 31 + 25; } return 0; }
static int r417(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0, w6 = 0, v7 = 0, v9 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (b & 3))) goto L1; w1++; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if ((c != -1)) goto A3_0; v4 = p(3, a); T = T * 31 + 4; if (!(c < w1)) goto J5; T = T * 31 + 5; goto L1; J5:; T = T * 31 + 6; goto E3; A3_0:; ; T = T * 31 + 7; goto E3; A3_1:; E3:; T = T * 31 + 8; goto N1; L1:; w6 = 0; N6: if (!(w6 < (a & 3))) goto L6; w6++; T = T * 31 + 9; if (!(b == 2)) goto A8_0; ; T = T * 31 + 10; if (!(p(11, b))) goto J10; T = T * 31 + 12; { *err = 1; return 0; } J10:; goto E8; A8_0:; E8:; if (!(w6)) goto J11; T = T * 31 + 13; return 14; J11:; T = T * 31 + 15; goto N6; L6:; return 0; }
static int r418(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0, s6 = 0, v8 = 0, w9 = 0, v10 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 2)) goto L1; { static const int t[] = { 1, 7, 0 }; e1 = t[n1]; } v2 = p(2, a); T = T * 31 + 3; if (!(v2 == -1)) goto A3_0; v4 = p(4, a); T = T * 31 + 5; goto E3; A3_0:; ; T = T * 31 + 6; goto E3; A3_1:; E3:; if (!(p(7, v2))) goto J5; T = T * 31 + 8; goto N1; J5:; T = T * 31 + 9; N1: n1++; goto C1; L1:; s6 = (int)(int8_t)c; if (s6 == 1) goto S6_0; goto D6; S6_0:; if (!(b != -1)) goto J7; T = T * 31 + 11; return 12; J7:; goto B6; D6:; ; T = T * 31 + 13; w9 = 0; N9: if (w9++ >= 2) goto L9; v10 = 0; T += v10; v10 = 5; T = T * 31 + 14; if (!(w9 != 1)) goto J11; T = T * 31 + 15; { *err = 1; return 0; } J11:; T = T * 31 + 16; goto N9; L9:; if (!(!(b <= 7))) goto J12; T = T * 31 + 17; goto B6; J12:; ; B6:; return 0; }
static int r419(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, v7 = 0, v11 = 0, i12 = 0, v13 = 0; T = T * 31 + 1; if (!(p(2, b))) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 3; s3 = c; if (s3 == 6) goto S3_0; if (s3 == 4) goto S3_1; goto B3; S3_0:; if (!((a) && (c != -1))) goto J4; T = T * 31 + 5; { *err = 1; return 0; } J4:; goto B3; S3_1:; ; T = T * 31 + 6; if ((c < 0)) goto A6_0; T = T * 31 + 7; if (!(a)) goto J8; T = T * 31 + 8; goto B3; J8:; T = T * 31 + 9; goto E6; A6_0:; ; T = T * 31 + 10; goto E6; A6_1:; E6:; if (!((b) || (a >= 7))) goto J9; T = T * 31 + 11; { *err = 1; return 0; } J9:; T = T * 31 + 12; goto B3; B3:; T = T * 31 + 13; goto E1; A1_0:; E1:; if ((c)) goto A10_0; T = T * 31 + 14; i12 = 0; C12: if (i12 > 1) goto L12; v13 = p(15, a); T = T * 31 + 16; if (!((i12) || (b < 1))) goto J14; T = T * 31 + 17; return 18; J14:; T = T * 31 + 19; N12: i12++; goto C12; L12:; if (!(a >= 2)) goto J15; T = T * 31 + 20; return 21; J15:; goto E10; A10_0:; E10:; return 0; }
static int r420(int a, int b, int c, int* err) { int ex = 0; (void)ex; int s1 = 0, v2 = 0, v4 = 0, i5 = 0, v6 = 0, i10 = 0, v11 = 0, w12 = 0, v13 = 0; T = T * 31 + 1; s1 = (int)(int8_t)c; if (s1 == INT32_MIN) goto S1_0; if (s1 == 97) goto S1_1; goto B1; S1_0:; v2 = p(3, a); T = T * 31 + 4; if (!(p(5, c))) goto A3_0; ; T = T * 31 + 6; i5 = 0; C5: if (i5 > 1) goto L5; ; T = T * 31 + 7; if (!(i5 < 2)) goto J7; T = T * 31 + 8; goto B1; J7:; T = T * 31 + 9; N5: i5++; goto C5; L5:; if (!(!(b < a))) goto J8; T = T * 31 + 10; goto B1; J8:; T = T * 31 + 11; goto E3; A3_0:; E3:; if (!(b != 0)) goto J9; T = T * 31 + 12; goto B1; J9:; goto B1; S1_1:; T = T * 31 + 13; goto B1; B1:; i10 = 0; C10: if (i10 > 1) goto L10; v11 = 0; T += v11; v11 = 5; T = T * 31 + 14; w12 = 0; N12: if (!(w12 < (b & 3))) goto L12; w12++; v13 = 0; T += v13; v13 = 5; T = T * 31 + 15; if (!(a < i10)) goto J14; T = T * 31 + 16; goto N12; J14:; T = T * 31 + 17; goto N12; L12:; if (!(!(b))) goto J15; T = T * 31 + 18; goto N10; J15:; T = T * 31 + 19; N10: i10++; goto C10; L10:; return 0; }
static int r421(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0, v6 = 0, v11 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = p(2, a); T = T * 31 + 3; i3 = 0; C3: if (i3 > 1) goto L3; v4 = 0; T += v4; v4 = 5; T = T * 31 + 4; if ((w1 < b)) goto A5_0; v6 = 0; T += v6; v6 = 5; T = T * 31 + 5; if (!(p(6, v2))) goto J7; T = T * 31 + 7; { *err = 1; return 0; } J7:; goto E5; A5_0:; ; T = T * 31 + 8; goto E5; A5_1:; E5:; if (!(b)) goto J8; T = T * 31 + 9; goto N3; J8:; T = T * 31 + 10; N3: i3++; goto C3; L3:; if (!(a >= 0)) goto J9; T = T * 31 + 11; { *err = 1; return 0; } J9:; goto N1; L1:; if (!(((c == -1) && (c)) && (a >= 0))) goto A10_0; v11 = 0; T += v11; v11 = 5; T = T * 31 + 12; if (!(p(13, a))) goto J12; T = T * 31 + 14; return 15; J12:; T = T * 31 + 16; goto E10; A10_0:; E10:; return 0; }
static int r422(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, i3 = 0, v4 = 0, v7 = 0, s8 = 0, v10 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; ; T = T * 31 + 3; if (!(c <= 7)) goto J5; T = T * 31 + 4; { *err = 1; return 0; } J5:; N3: i3++; goto C3; L3:; T = T * 31 + 5; goto N1; L1:; ; v7 = 0; T += v7; v7 = 5; T = T * 31 + 6; s8 = p(7, a); if (s8 == 7) goto S8_0; if (s8 == 6) goto S8_1; if (s8 == 4) goto S8_2; if (s8 == 0) goto S8_2; if (s8 == 5) goto S8_2; if (s8 == 3) goto S8_3; if (s8 == 2) goto S8_3; if (s8 == 1) goto S8_4; goto B8; S8_0:; if (!((a <= 7) && (c <= 0))) goto J9; T = T * 31 + 8; goto B8; J9:; goto B8; S8_1:; ; T = T * 31 + 9; if (!((c != -1) && (c != 0))) goto J11; T = T * 31 + 10; goto B8; J11:; T = T * 31 + 11; goto B8; S8_2:; T = T * 31 + 12; goto B8; S8_3:; T = T * 31 + 13; goto B8; S8_4:; T = T * 31 + 14; goto B8; B8:; if (!(p(15, c))) goto J12; T = T * 31 + 16; { *err = 1; return 0; } J12:; T = T * 31 + 17; ; return 0; }
static int r423(int a, int b, int c, int* err) { int ex = 0; (void)ex; int i1 = 0, v2 = 0, s3 = 0, v5 = 0, w6 = 0, v7 = 0; T = T * 31 + 1; i1 = 0; C1: if (i1 > 1) goto L1; T = T * 31 + 2; T = T * 31 + 3; N1: i1++; goto C1; L1:; s3 = p(4, c); if (s3 == 1) goto S3_0; if (s3 == 3) goto S3_0; if (s3 == 5) goto S3_1; if (s3 == 6) goto S3_2; if (s3 == 7) goto S3_2; if (s3 == 4) goto S3_3; goto D3; S3_0:; if (!(c < b)) goto J4; T = T * 31 + 5; { *err = 1; return 0; } J4:; goto B3; S3_1:; T = T * 31 + 6; goto B3; S3_2:; T = T * 31 + 7; goto B3; S3_3:; ; T = T * 31 + 8; w6 = 0; N6: if (!(w6 < (c & 3))) goto L6; w6++; T = T * 31 + 9; if (!((w6 != 0) && (c))) goto J8; T = T * 31 + 10; goto N6; J8:; goto N6; L6:; if (!(p(11, b))) goto J9; T = T * 31 + 12; { *err = 1; return 0; } J9:; T = T * 31 + 13; goto B3; D3:; T = T * 31 + 14; ; B3:; return 0; }
static int r424(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0, v6 = 0, v10 = 0, s11 = 0, v12 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if (!(!((a < 7) && (w1 <= 0)))) goto A3_0; T = T * 31 + 3; ; v6 = p(4, a); T = T * 31 + 5; if (!(p(6, b))) goto J7; T = T * 31 + 7; goto L1; J7:; T = T * 31 + 8; ; if (!(w1)) goto J8; T = T * 31 + 9; { *err = 1; return 0; } J8:; goto E3; A3_0:; E3:; T = T * 31 + 10; goto N1; L1:; if ((c < c)) goto A9_0; T = T * 31 + 11; s11 = (b & 7); if (s11 == 127) goto S11_0; if (s11 == 5) goto S11_0; goto B11; S11_0:; ; T = T * 31 + 13; if (!((c <= 2) && (a))) goto J13; T = T * 31 + 14; goto B11; J13:; goto B11; B11:; if (!(p(15, c))) goto J14; T = T * 31 + 16; { *err = 1; return 0; } J14:; goto E9; A9_0:; E9:; return 0; }
static int r425(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, w3 = 0, v4 = 0, v6 = 0; T = T * 31 + 1; if (!(a)) goto A1_0; T = T * 31 + 2; goto E1; A1_0:; if (!(a < b)) goto A1_1; v2 = p(3, a); T = T * 31 + 4; goto E1; A1_1:; if (!(c < b)) goto A1_2; T = T * 31 + 5; goto E1; A1_2:; E1:; w3 = 0; N3: if (!(w3 < (b & 3))) goto L3; w3++; v4 = 0; T += v4; v4 = 5; T = T * 31 + 6; if (((c < -1) || ((c != 2) && (a == -1)))) goto A5_0; ; T = T * 31 + 7; if (!(b != -1)) goto J7; T = T * 31 + 8; goto L3; J7:; goto E5; A5_0:; ; T = T * 31 + 9; goto E5; A5_1:; E5:; if (!(p(10, b))) goto J8; T = T * 31 + 11; { *err = 1; return 0; } J8:; T = T * 31 + 12; goto N3; L3:; return 0; }
static int r426(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, s3 = 0, v5 = 0, v7 = 0, s11 = 0, v13 = 0, s14 = 0, v16 = 0; T = T * 31 + 1; if (!(a < a)) goto A1_0; v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; s3 = (int)(int8_t)b; if (s3 == 5) goto S3_0; if (s3 == 3) goto S3_0; if (s3 == 4) goto S3_0; if (s3 == 2) goto S3_1; if (s3 == 0) goto S3_2; if (s3 == 1) goto S3_2; if (s3 == 6) goto S3_3; if (s3 == 7) goto S3_3; goto D3; S3_0:; if (!(b)) goto J4; T = T * 31 + 4; goto B3; J4:; goto B3; S3_1:; T = T * 31 + 5; goto B3; S3_2:; v5 = p(6, a); T = T * 31 + 7; if (!(b < b)) goto A6_0; T = T * 31 + 8; if (!(b == 7)) goto J8; T = T * 31 + 9; { *err = 1; return 0; } J8:; T = T * 31 + 10; goto E6; A6_0:; E6:; if (!(v5 != 0)) goto J9; T = T * 31 + 11; return 12; J9:; goto B3; S3_3:; T = T * 31 + 13; goto B3; D3:; T = T * 31 + 14; ; B3:; if (!(p(15, b))) goto J10; T = T * 31 + 16; return 17; J10:; goto E1; A1_0:; if (!(a < b)) goto A1_1; T = T * 31 + 18; goto E1; A1_1:; if (!(b != 1)) goto A1_2; T = T * 31 + 19; goto E1; A1_2:; E1:; s11 = (c & 7); if (s11 == 7) goto S11_0; if (s11 == 1) goto S11_1; if (s11 == 6) goto S11_2; if (s11 == 4) goto S11_3; if (s11 == 3) goto S11_4; if (s11 == 5) goto S11_4; if (s11 == 0) goto S11_5; goto B11; S11_0:; if (!(c)) goto J12; T = T * 31 + 21; return 22; J12:; goto B11; S11_1:; T = T * 31 + 23; goto B11; S11_2:; v13 = p(24, a); T = T * 31 + 25; s14 = b; if (s14 == 7) goto S14_0; if (s14 == 6) goto S14_1; if (s14 == 0) goto S14_1; goto D14; S14_0:; if (!(p(27, b))) goto J15; T = T * 31 + 28; { *err = 1; return 0; } J15:; goto B14; S14_1:; ; T = T * 31 + 29; if (!((a) || (c > 1))) goto J17; T = T * 31 + 30; { *err = 1; return 0; } J17:; goto B14; D14:; T = T * 31 + 31; ; B14:; if (!(p(32, v13))) goto J18; T = T * 31 + 33; return 34; J18:; T = T * 31 + 35; goto B11; S11_3:; T = T * 31 + 36; goto B11; S11_4:; T = T * 31 + 37; goto B11; S11_5:; T = T * 31 + 38; goto B11; B11:; return 0; }
static int r427(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, v9 = 0, s10 = 0, v12 = 0, v14 = 0, w17 = 0, v18 = 0, e19 = 0, n19 = 0, v20 = 0; T = T * 31 + 1; if (((a < b) && (c < -1))) goto A1_0; T = T * 31 + 2; if (!(p(3, b))) goto A3_0; v4 = p(4, a); T = T * 31 + 5; if ((a < b)) goto A5_0; v6 = 0; T += v6; v6 = 5; T = T * 31 + 6; if (!((a >= 7) && (v4 != 0))) goto J7; T = T * 31 + 7; return 8; J7:; goto E5; A5_0:; ; T = T * 31 + 9; goto E5; A5_1:; E5:; if (!((b > 7) && (b))) goto J8; T = T * 31 + 10; return 11; J8:; goto E3; A3_0:; E3:; goto E1; A1_0:; ; v9 = p(12, a); T = T * 31 + 13; s10 = (int)(int8_t)b; if (s10 == 5) goto S10_0; if (s10 == 2) goto S10_1; if (s10 == 127) goto S10_2; if (s10 == -1) goto S10_3; if (s10 == 97) goto S10_4; if (s10 == 2147483647) goto S10_4; if (s10 == -7) goto S10_4; if (s10 == 0) goto S10_5; if (s10 == INT32_MIN) goto S10_6; goto B10; S10_0:; if (!(c <= 0)) goto J11; T = T * 31 + 15; { *err = 1; return 0; } J11:; goto B10; S10_1:; T = T * 31 + 16; goto B10; S10_2:; T = T * 31 + 17; goto B10; S10_3:; T = T * 31 + 18; goto B10; S10_4:; T = T * 31 + 19; goto B10; S10_5:; T = T * 31 + 20; goto B10; S10_6:; ; T = T * 31 + 21; if (!((v9) && (!(b <= 1)))) goto A13_0; T = T * 31 + 22; goto E13; A13_0:; ; v14 = p(23, a); T = T * 31 + 24; if (!(c > 0)) goto J15; T = T * 31 + 25; goto B10; J15:; T = T * 31 + 26; goto E13; A13_1:; E13:; T = T * 31 + 27; goto B10; B10:; if (!((a < c) && (a < 1))) goto J16; T = T * 31 + 28; { *err = 1; return 0; } J16:; goto E1; A1_1:; E1:; w17 = 0; N17: if (!(w17 < (c & 3))) goto L17; w17++; v18 = 0; T += v18; v18 = 5; T = T * 31 + 29; n19 = 0; C19: if (!(n19 < 3)) goto L19; { static const int t[] = { -1, 1, 7, 0 }; e19 = t[n19]; } v20 = p(30, a); T = T * 31 + 31; if (!(v20 >= 0)) goto J21; T = T * 31 + 32; return 33; J21:; T = T * 31 + 34; N19: n19++; goto C19; L19:; if (!(!(b > 2))) goto J22; T = T * 31 + 35; goto L17; J22:; T = T * 31 + 36; goto N17; L17:; return 0; }
static int r428(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, v4 = 0, i5 = 0, v6 = 0, v10 = 0, w11 = 0, v12 = 0, v15 = 0, v17 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 0)) goto L1; { static const int t[] = { 0 }; e1 = t[n1]; } v2 = 0; T += v2; v2 = 5; T = T * 31 + 2; if ((e1 == -1)) goto A3_0; T = T * 31 + 3; i5 = 0; C5: if (i5 > 1) goto L5; T = T * 31 + 4; if (!(i5 < i5)) goto J7; T = T * 31 + 5; goto L5; J7:; T = T * 31 + 6; N5: i5++; goto C5; L5:; if (!(a == 2)) goto J8; T = T * 31 + 7; return 8; J8:; T = T * 31 + 9; goto E3; A3_0:; E3:; T = T * 31 + 10; N1: n1++; goto C1; L1:; if (!(!((a < b) && (c == 7)))) goto A9_0; T = T * 31 + 11; goto E9; A9_0:; if (!(p(12, b))) goto A9_1; v10 = p(13, a); T = T * 31 + 14; w11 = 0; N11: if (!(w11 < (c & 3))) goto L11; w11++; ; T = T * 31 + 15; if (!(b < a)) goto J13; T = T * 31 + 16; goto L11; J13:; goto N11; L11:; if (!(c > 1)) goto J14; T = T * 31 + 17; { *err = 1; return 0; } J14:; goto E9; A9_1:; if (!(c < b)) goto A9_2; T = T * 31 + 18; ex = 0; T = T * 31 + 19; if (!(a < 0)) goto J18; T = T * 31 + 20; { ex = 1; goto V16; } J18:; V16:; if (ex) { T = T * 31 + 21; } if (!(p(22, a))) goto J19; T = T * 31 + 23; return 24; J19:; T = T * 31 + 25; goto E9; A9_2:; ; T = T * 31 + 26; goto E9; A9_3:; E9:; return 0; }
static int r429(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, v10 = 0, s11 = 0, v13 = 0, w14 = 0, v15 = 0, v19 = 0, v21 = 0; T = T * 31 + 1; if ((a != -1)) goto A1_0; v2 = p(2, a); T = T * 31 + 3; if ((a)) goto A3_0; T = T * 31 + 4; if (!(p(5, b))) goto A5_0; T = T * 31 + 6; goto E5; A5_0:; if (!(c)) goto A5_1; ; T = T * 31 + 7; if (!(b > 7)) goto J7; T = T * 31 + 8; return 9; J7:; goto E5; A5_1:; ; T = T * 31 + 10; goto E5; A5_2:; E5:; if (!(c < b)) goto J8; T = T * 31 + 11; { *err = 1; return 0; } J8:; T = T * 31 + 12; goto E3; A3_0:; ; T = T * 31 + 13; goto E3; A3_1:; E3:; if (!(v2 < 7)) goto J9; T = T * 31 + 14; { *err = 1; return 0; } J9:; goto E1; A1_0:; ; v10 = 0; T += v10; v10 = 5; T = T * 31 + 15; s11 = c; if (s11 == 1) goto S11_0; if (s11 == 7) goto S11_0; if (s11 == 6) goto S11_0; if (s11 == 2) goto S11_1; if (s11 == 4) goto S11_1; if (s11 == 3) goto S11_1; if (s11 == 5) goto S11_2; if (s11 == 0) goto S11_2; goto D11; S11_0:; if (!((c > 2) && (a))) goto J12; T = T * 31 + 17; { *err = 1; return 0; } J12:; goto B11; S11_1:; v13 = 0; T += v13; v13 = 5; T = T * 31 + 18; w14 = 0; N14: if (w14++ >= 2) goto L14; T = T * 31 + 19; goto N14; L14:; if (!(a < b)) goto J16; T = T * 31 + 20; goto B11; J16:; T = T * 31 + 21; goto B11; S11_2:; T = T * 31 + 22; goto B11; D11:; T = T * 31 + 23; ; B11:; if (!(a < b)) goto J17; T = T * 31 + 24; return 25; J17:; T = T * 31 + 26; goto E1; A1_1:; E1:; ex = 0; v19 = 0; T += v19; v19 = 5; T = T * 31 + 27; if ((c == 1)) goto A20_0; v21 = 0; T += v21; v21 = 5; T = T * 31 + 28; if (!(b < b)) goto J22; T = T * 31 + 29; return 30; J22:; T = T * 31 + 31; goto E20; A20_0:; E20:; if (!((c) && (a != 7))) goto J23; T = T * 31 + 32; { ex = 1; goto V18; } J23:; V18:; if (ex) { T = T * 31 + 33; } return 0; }
static int r430(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, v6 = 0, w9 = 0, v10 = 0, s11 = 0, v13 = 0; T = T * 31 + 1; if ((c == -1)) goto A1_0; ; T = T * 31 + 2; ex = 0; ; T = T * 31 + 3; if ((a < b)) goto A5_0; v6 = 0; T += v6; v6 = 5; T = T * 31 + 4; if (!(c > 0)) goto J7; T = T * 31 + 5; return 6; J7:; goto E5; A5_0:; E5:; if (!(!(a < c))) goto J8; T = T * 31 + 7; return 8; J8:; V3:; if (ex) { T = T * 31 + 9; } goto E1; A1_0:; ; T = T * 31 + 10; goto E1; A1_1:; E1:; w9 = 0; N9: if (!(w9 < (b & 3))) goto L9; w9++; v10 = 0; T += v10; v10 = 5; T = T * 31 + 11; s11 = p(12, a); if (s11 == -7) goto S11_0; if (s11 == 1000000) goto S11_0; if (s11 == 97) goto S11_0; if (s11 == 0) goto S11_1; if (s11 == -128) goto S11_2; if (s11 == 128) goto S11_3; if (s11 == -129) goto S11_4; goto B11; S11_0:; if (!(!(w9 > 2))) goto J12; T = T * 31 + 13; goto B11; J12:; goto B11; S11_1:; T = T * 31 + 14; goto B11; S11_2:; T = T * 31 + 15; goto B11; S11_3:; T = T * 31 + 16; if (!(c != -1)) goto J14; T = T * 31 + 17; goto N9; J14:; goto B11; S11_4:; T = T * 31 + 18; goto B11; B11:; if (!(a < 1)) goto J15; T = T * 31 + 19; goto N9; J15:; T = T * 31 + 20; goto N9; L9:; return 0; }
static int r431(int a, int b, int c, int* err) { int ex = 0; (void)ex; int e1 = 0, n1 = 0, v2 = 0, i3 = 0, v4 = 0, i5 = 0, v6 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; n1 = 0; C1: if (!(n1 < 3)) goto L1; { static const int t[] = { 0, -1, -1, 0 }; e1 = t[n1]; } ; T = T * 31 + 2; i3 = 0; C3: if (i3 > 1) goto L3; ; T = T * 31 + 3; i5 = 0; C5: if (i5 > 1) goto L5; v6 = 0; T += v6; v6 = 5; T = T * 31 + 4; if (!(c < i5)) goto J7; T = T * 31 + 5; goto N5; J7:; T = T * 31 + 6; N5: i5++; goto C5; L5:; if (!(e1 == 2)) goto J8; T = T * 31 + 7; return 8; J8:; N3: i3++; goto C3; L3:; if (!(p(9, b))) goto J9; T = T * 31 + 10; { *err = 1; return 0; } J9:; T = T * 31 + 11; N1: n1++; goto C1; L1:; ex = 0; v11 = p(12, a); T = T * 31 + 13; ex = 0; v13 = p(14, a); T = T * 31 + 15; if (!((v11 < 2) || (v13))) goto J14; T = T * 31 + 16; { ex = 1; goto V12; } J14:; V12:; if (ex) { T = T * 31 + 17; } if (!(a < c)) goto J15; T = T * 31 + 18; return 19; J15:; T = T * 31 + 20; V10:; if (ex) { T = T * 31 + 21; } return 0; }
static int r432(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, w5 = 0, v6 = 0, v9 = 0; T = T * 31 + 1; if ((a > 7)) goto A1_0; v2 = p(2, a); T = T * 31 + 3; goto E1; A1_0:; E1:; if (!(c)) goto A3_0; T = T * 31 + 4; w5 = 0; N5: if (!(w5 < (c & 3))) goto L5; w5++; v6 = 0; T += v6; v6 = 5; T = T * 31 + 5; if (!(a == 1)) goto J7; T = T * 31 + 6; goto N5; J7:; T = T * 31 + 7; goto N5; L5:; if (!(c >= 1)) goto J8; T = T * 31 + 8; return 9; J8:; goto E3; A3_0:; ; T = T * 31 + 10; if (!(a < c)) goto J10; T = T * 31 + 11; return 12; J10:; goto E3; A3_1:; E3:; return 0; }
static int r433(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0, i5 = 0, v6 = 0, s10 = 0, v12 = 0, v14 = 0; T = T * 31 + 1; w1 = 0; N1: if (!(w1 < (a & 3))) goto L1; w1++; ; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; i5 = 0; C5: if (!(i5 < (b & 1))) goto L5; v6 = p(6, a); T = T * 31 + 7; if (!(v4 == 2)) goto J7; T = T * 31 + 8; return 9; J7:; T = T * 31 + 10; N5: i5 = q(5, i5); goto C5; L5:; if (!((w1 <= 2) && (c < 7))) goto J8; T = T * 31 + 11; goto N1; J8:; T = T * 31 + 12; V3:; if (ex) { T = T * 31 + 13; } if (!(a < w1)) goto J9; T = T * 31 + 14; { *err = 1; return 0; } J9:; T = T * 31 + 15; goto N1; L1:; s10 = p(16, b); if (s10 == 2) goto S10_0; if (s10 == 4) goto S10_1; goto D10; S10_0:; if (!(!(a >= 1))) goto J11; T = T * 31 + 17; { *err = 1; return 0; } J11:; goto B10; S10_1:; T = T * 31 + 18; goto B10; D10:; v12 = 0; T += v12; v12 = 5; T = T * 31 + 19; if (!(p(20, c))) goto A13_0; v14 = 0; T += v14; v14 = 5; T = T * 31 + 21; if (!(p(22, c))) goto J15; T = T * 31 + 23; goto B10; J15:; T = T * 31 + 24; goto E13; A13_0:; E13:; if (!(a)) goto J16; T = T * 31 + 25; return 26; J16:; T = T * 31 + 27; ; B10:; return 0; }
static int r434(int a, int b, int c, int* err) { int ex = 0; (void)ex; int v2 = 0, v4 = 0, e5 = 0, n5 = 0, v6 = 0, s10 = 0, v11 = 0, v13 = 0; T = T * 31 + 1; ex = 0; ; T = T * 31 + 2; ex = 0; v4 = p(3, a); T = T * 31 + 4; n5 = 0; C5: if (!(n5 < 3)) goto L5; { static const int t[] = { 7, 1, 0, 0 }; e5 = t[n5]; } v6 = p(5, a); T = T * 31 + 6; if (!(v4 >= -1)) goto J7; T = T * 31 + 7; goto N5; J7:; N5: n5++; goto C5; L5:; if (!((v4 == 0) || (v4 < b))) goto J8; T = T * 31 + 8; { ex = 1; goto V3; } J8:; V3:; if (ex) { T = T * 31 + 9; } if (!(!(a))) goto J9; T = T * 31 + 10; { ex = 1; goto V1; } J9:; V1:; if (ex) { T = T * 31 + 11; } s10 = p(12, c); if (s10 == -129) goto S10_0; if (s10 == -1) goto S10_1; if (s10 == -7) goto S10_2; goto B10; S10_0:; v11 = 0; T += v11; v11 = 5; T = T * 31 + 13; if (!(a < a)) goto A12_0; T = T * 31 + 14; goto E12; A12_0:; if (!(c)) goto A12_1; v13 = p(15, a); T = T * 31 + 16; if (!((c < b) || (c >= 2))) goto J14; T = T * 31 + 17; goto B10; J14:; goto E12; A12_1:; ; T = T * 31 + 18; goto E12; A12_2:; E12:; if (!(c <= 1)) goto J15; T = T * 31 + 19; return 20; J15:; T = T * 31 + 21; goto B10; S10_1:; T = T * 31 + 22; goto B10; S10_2:; T = T * 31 + 23; goto B10; B10:; return 0; }
static int r435(int a, int b, int c, int* err) { int ex = 0; (void)ex; int w1 = 0, v2 = 0, v4 = 0, e5 = 0, n5 = 0, v6 = 0, v10 = 0, v12 = 0; T = T * 31 + 1; w1 = 0; N1: if (w1++ >= 2) goto L1; T = T * 31 + 2; if ((c)) goto A3_0; v4 = 0; T += v4; v4 = 5; T = T * 31 + 3; n5 = 0; C5: if (!(n5 < 0)) goto L5; { static const int t[] = { 0 }; e5 = t[n5]; } v6 = 0; T += v6; v6 = 5; T = T * 31 + 4; if (!(w1 == 7)) goto J7; T = T * 31 + 5; return 6; J7:; N5: n5++; goto C5; L5:; if (!((w1 < b) || (c))) goto J8; T = T * 31 + 7; goto L1; J8:; T = T * 31 + 8; goto E3; A3_0:; E3:; goto N1; L1:; if (!(b > 1)) goto A9_0; v10 = 0; T += v10; v10 = 5; T = T * 31 + 9; if (!(b < a)) goto J11; T = T * 31 + 10; { *err = 1; return 0; } J11:; goto E9; A9_0:; ; T = T * 31 + 11; if (!((c < a) || (a))) goto J13; T = T * 31 + 12; return 13; J13:; T = T * 31 + 14; goto E9; A9_1:; E9:; return 0; }
static int (*const REF[])(int, int, int, int*) = { r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12, r13, r14, r15, r16, r17, r18, r19, r20, r21, r22, r23, r24, r25, r26, r27, r28, r29, r30, r31, r32, r33, r34, r35, r36, r37, r38, r39, r40, r41, r42, r43, r44, r45, r46, r47, r48, r49, r50, r51, r52, r53, r54, r55, r56, r57, r58, r59, r60, r61, r62, r63, r64, r65, r66, r67, r68, r69, r70, r71, r72, r73, r74, r75, r76, r77, r78, r79, r80, r81, r82, r83, r84, r85, r86, r87, r88, r89, r90, r91, r92, r93, r94, r95, r96, r97, r98, r99, r100, r101, r102, r103, r104, r105, r106, r107, r108, r109, r110, r111, r112, r113, r114, r115, r116, r117, r118, r119, r120, r121, r122, r123, r124, r125, r126, r127, r128, r129, r130, r131, r132, r133, r134, r135, r136, r137, r138, r139, r140, r141, r142, r143, r144, r145, r146, r147, r148, r149, r150, r151, r152, r153, r154, r155, r156, r157, r158, r159, r160, r161, r162, r163, r164, r165, r166, r167, r168, r169, r170, r171, r172, r173, r174, r175, r176, r177, r178, r179, r180, r181, r182, r183, r184, r185, r186, r187, r188, r189, r190, r191, r192, r193, r194, r195, r196, r197, r198, r199, r200, r201, r202, r203, r204, r205, r206, r207, r208, r209, r210, r211, r212, r213, r214, r215, r216, r217, r218, r219, r220, r221, r222, r223, r224, r225, r226, r227, r228, r229, r230, r231, r232, r233, r234, r235, r236, r237, r238, r239, r240, r241, r242, r243, r244, r245, r246, r247, r248, r249, r250, r251, r252, r253, r254, r255, r256, r257, r258, r259, r260, r261, r262, r263, r264, r265, r266, r267, r268, r269, r270, r271, r272, r273, r274, r275, r276, r277, r278, r279, r280, r281, r282, r283, r284, r285, r286, r287, r288, r289, r290, r291, r292, r293, r294, r295, r296, r297, r298, r299, r300, r301, r302, r303, r304, r305, r306, r307, r308, r309, r310, r311, r312, r313, r314, r315, r316, r317, r318, r319, r320, r321, r322, r323, r324, r325, r326, r327, r328, r329, r330, r331, r332, r333, r334, r335, r336, r337, r338, r339, r340, r341, r342, r343, r344, r345, r346, r347, r348, r349, r350, r351, r352, r353, r354, r355, r356, r357, r358, r359, r360, r361, r362, r363, r364, r365, r366, r367, r368, r369, r370, r371, r372, r373, r374, r375, r376, r377, r378, r379, r380, r381, r382, r383, r384, r385, r386, r387, r388, r389, r390, r391, r392, r393, r394, r395, r396, r397, r398, r399, r400, r401, r402, r403, r404, r405, r406, r407, r408, r409, r410, r411, r412, r413, r414, r415, r416, r417, r418, r419, r420, r421, r422, r423, r424, r425, r426, r427, r428, r429, r430, r431, r432, r433, r434, r435 };
