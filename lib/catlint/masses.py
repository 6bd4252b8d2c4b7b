"""Mass excesses of the naturally occurring nuclides in MeV (Atomic Mass Evaluation), atomic number -> {mass number: excess}."""
TEXT = """
1 1:7.289 2:13.136
2 3:14.931 4:2.425
3 6:14.087 7:14.907
4 9:11.348
5 10:12.051 11:8.668
6 12:0 13:3.125
7 14:2.863 15:0.101
8 16:-4.737 17:-0.809 18:-0.783
9 19:-1.487
10 20:-7.042 21:-5.732 22:-8.025
11 23:-9.530
12 24:-13.933 25:-13.193 26:-16.214
13 27:-17.197
14 28:-21.493 29:-21.895 30:-24.433
15 31:-24.440
16 32:-26.016 33:-26.586 34:-29.932 36:-30.664
17 35:-29.014 37:-31.761
18 36:-30.231 38:-34.715 40:-35.040
19 39:-33.807 40:-33.535 41:-35.559
20 40:-34.846 42:-38.547 43:-38.408 44:-41.468 46:-43.135 48:-44.215
21 45:-41.068
22 46:-44.123 47:-44.932 48:-48.488 49:-48.559 50:-51.427
23 50:-49.222 51:-52.201
24 50:-50.260 52:-55.417 53:-55.285 54:-56.933
25 55:-57.711
26 54:-56.252 56:-60.605 57:-60.180 58:-62.153
27 59:-62.228
28 58:-60.228 60:-64.472 61:-64.221 62:-66.746 64:-67.099
29 63:-65.579 65:-67.264
30 64:-66.004 66:-68.899 67:-67.880 68:-70.007 70:-69.565
31 69:-69.328 71:-70.140
32 70:-70.562 72:-72.586 73:-71.298 74:-73.422 76:-73.213
33 75:-73.032
34 74:-72.213 76:-75.252 77:-74.599 78:-77.026 80:-77.760 82:-77.594
35 79:-76.068 81:-77.975
36 78:-74.180 80:-77.893 82:-80.590 83:-79.990 84:-82.439 86:-83.266
37 85:-82.167 87:-84.597
38 84:-80.649 86:-84.523 87:-84.880 88:-87.921
39 89:-87.711
40 90:-88.767 91:-87.890 92:-88.454 94:-87.267 96:-85.443
41 93:-87.208
42 92:-86.809 94:-88.409 95:-87.707 96:-88.790 97:-87.540 98:-88.111 100:-86.184
44 96:-86.072 98:-88.224 99:-87.617 100:-89.219 101:-87.950 102:-89.098 104:-88.089
45 103:-88.022
46 102:-87.926 104:-89.391 105:-88.413 106:-89.904 108:-89.524 110:-88.350
47 107:-88.405 109:-88.720
48 106:-87.132 108:-89.252 110:-90.350 111:-89.254 112:-90.577 113:-89.049 114:-90.021 116:-88.719
49 113:-89.366 115:-89.536
50 112:-88.659 114:-90.558 115:-90.032 116:-91.525 117:-90.398 118:-91.653 119:-90.065 120:-91.098 122:-89.946 124:-88.237
51 121:-89.593 123:-89.223
52 120:-89.405 122:-90.311 123:-89.172 124:-90.523 125:-89.028 126:-90.070 128:-88.994 130:-87.353
53 127:-88.984
54 124:-87.660 126:-89.173 128:-89.860 129:-88.697 130:-89.881 131:-88.415 132:-89.280 134:-88.125 136:-86.429
55 133:-88.071
56 130:-87.262 132:-88.435 134:-88.950 135:-87.851 136:-88.887 137:-87.721 138:-88.262
57 138:-86.525 139:-87.231
58 136:-86.500 138:-87.569 140:-88.083 142:-84.538
59 141:-86.021
60 142:-85.955 143:-84.007 144:-83.753 145:-81.437 146:-80.931 148:-77.413 150:-73.690
62 144:-81.972 147:-79.272 148:-79.342 149:-77.142 150:-77.057 152:-74.769 154:-72.461
63 151:-74.659 153:-73.373
64 152:-74.714 154:-73.713 155:-72.077 156:-72.542 157:-70.830 158:-70.697 160:-67.949
65 159:-69.539
66 156:-70.530 158:-70.412 160:-69.678 161:-68.061 162:-68.187 163:-66.386 164:-65.973
67 165:-64.904
68 162:-66.343 164:-65.950 166:-64.931 167:-63.296 168:-62.996 170:-60.115
69 169:-61.280
70 168:-61.575 170:-60.769 171:-59.312 172:-59.260 173:-57.556 174:-56.950 176:-53.494
71 175:-55.171 176:-53.387
72 174:-55.847 176:-54.577 177:-52.890 178:-52.444 179:-50.472 180:-49.788
73 180:-48.936 181:-48.442
74 180:-49.645 182:-48.247 183:-46.367 184:-45.707 186:-42.511
75 185:-43.822 187:-41.218
76 184:-44.256 186:-43.002 187:-41.221 188:-41.139 189:-38.988 190:-38.708 192:-35.884
77 191:-36.706 193:-34.538
78 190:-37.325 192:-36.296 194:-34.763 195:-32.797 196:-32.647 198:-29.908
79 197:-31.141
80 196:-31.827 198:-30.954 199:-29.547 200:-29.504 201:-27.663 202:-27.346 204:-24.690
81 203:-25.761 205:-23.821
82 204:-25.110 206:-23.786 207:-22.452 208:-21.749
83 209:-18.259
90 232:35.448
91 231:33.426
92 234:38.147 235:40.920 238:47.309
"""
U = 931.494
EXCESS = {}
for _l in TEXT.split("\n"):
    if _l:
        _z, *_r = _l.split()
        EXCESS[int(_z)] = {int(x.split(":")[0]): float(x.split(":")[1]) for x in _r}


def atomic_mass(a, z):
    """in u, None for a nuclide not found in nature"""
    e = EXCESS.get(z, {}).get(a)
    return None if e is None else a + e / U
