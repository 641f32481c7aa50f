// Generated by tools/gen_catalog.py. Do not edit.
use crate::comps::*; use crate::rows::*; use xecs::World; use xecs::query::Without; use xecs::group::{FullOwning,PartialOwning,NonOwning};
#[rustfmt::skip]
pub fn open<'a>(w: &'a World, i: usize) -> Box<dyn DynIter<'a> + 'a> { match i {
    1 => mk::<&'a A>(w),
    2 => mk::<&'a mut A>(w),
    3 => mk::<&'a B>(w),
    4 => mk::<&'a mut B>(w),
    5 => mk::<&'a C>(w),
    6 => mk::<&'a mut C>(w),
    7 => mk::<&'a D>(w),
    8 => mk::<&'a mut D>(w),
    9 => mk::<&'a E>(w),
    10 => mk::<&'a mut E>(w),
    11 => mk::<(&'a A,&'a B)>(w),
    12 => mk::<(&'a A,&'a mut B)>(w),
    13 => mk::<(&'a mut A,&'a B)>(w),
    14 => mk::<(&'a mut A,&'a mut B)>(w),
    15 => mk::<(&'a B,&'a A)>(w),
    16 => mk::<(&'a B,&'a mut A)>(w),
    17 => mk::<(&'a mut B,&'a A)>(w),
    18 => mk::<(&'a mut B,&'a mut A)>(w),
    19 => mk::<(&'a A,&'a C)>(w),
    20 => mk::<(&'a A,&'a mut C)>(w),
    21 => mk::<(&'a mut A,&'a C)>(w),
    22 => mk::<(&'a mut A,&'a mut C)>(w),
    23 => mk::<(&'a C,&'a A)>(w),
    24 => mk::<(&'a C,&'a mut A)>(w),
    25 => mk::<(&'a mut C,&'a A)>(w),
    26 => mk::<(&'a mut C,&'a mut A)>(w),
    27 => mk::<(&'a B,&'a C)>(w),
    28 => mk::<(&'a B,&'a mut C)>(w),
    29 => mk::<(&'a mut B,&'a C)>(w),
    30 => mk::<(&'a mut B,&'a mut C)>(w),
    31 => mk::<(&'a C,&'a B)>(w),
    32 => mk::<(&'a C,&'a mut B)>(w),
    33 => mk::<(&'a mut C,&'a B)>(w),
    34 => mk::<(&'a mut C,&'a mut B)>(w),
    35 => mk::<(&'a D,&'a A)>(w),
    36 => mk::<(&'a D,&'a mut A)>(w),
    37 => mk::<(&'a mut D,&'a A)>(w),
    38 => mk::<(&'a mut D,&'a mut A)>(w),
    39 => mk::<(&'a B,&'a D)>(w),
    40 => mk::<(&'a B,&'a mut D)>(w),
    41 => mk::<(&'a mut B,&'a D)>(w),
    42 => mk::<(&'a mut B,&'a mut D)>(w),
    43 => mk::<(&'a E,&'a A)>(w),
    44 => mk::<(&'a E,&'a mut A)>(w),
    45 => mk::<(&'a mut E,&'a A)>(w),
    46 => mk::<(&'a mut E,&'a mut A)>(w),
    47 => mk::<(&'a A,&'a E)>(w),
    48 => mk::<(&'a A,&'a mut E)>(w),
    49 => mk::<(&'a mut A,&'a E)>(w),
    50 => mk::<(&'a mut A,&'a mut E)>(w),
    51 => mk::<(&'a C,&'a D)>(w),
    52 => mk::<(&'a C,&'a mut D)>(w),
    53 => mk::<(&'a mut C,&'a D)>(w),
    54 => mk::<(&'a mut C,&'a mut D)>(w),
    55 => mk::<(&'a D,&'a E)>(w),
    56 => mk::<(&'a D,&'a mut E)>(w),
    57 => mk::<(&'a mut D,&'a E)>(w),
    58 => mk::<(&'a mut D,&'a mut E)>(w),
    59 => mk::<(&'a A,&'a B,&'a C)>(w),
    60 => mk::<(&'a mut A,&'a B,&'a mut C)>(w),
    61 => mk::<(&'a A,&'a mut B,&'a C)>(w),
    62 => mk::<(&'a mut A,&'a mut B,&'a mut C)>(w),
    63 => mk::<(&'a C,&'a B,&'a A)>(w),
    64 => mk::<(&'a mut C,&'a B,&'a mut A)>(w),
    65 => mk::<(&'a C,&'a mut B,&'a A)>(w),
    66 => mk::<(&'a mut C,&'a mut B,&'a mut A)>(w),
    67 => mk::<(&'a B,&'a A,&'a D)>(w),
    68 => mk::<(&'a mut B,&'a A,&'a mut D)>(w),
    69 => mk::<(&'a B,&'a mut A,&'a D)>(w),
    70 => mk::<(&'a mut B,&'a mut A,&'a mut D)>(w),
    71 => mk::<(&'a D,&'a C,&'a E)>(w),
    72 => mk::<(&'a mut D,&'a C,&'a mut E)>(w),
    73 => mk::<(&'a D,&'a mut C,&'a E)>(w),
    74 => mk::<(&'a mut D,&'a mut C,&'a mut E)>(w),
    75 => mk::<(&'a A,&'a B,&'a C,&'a D)>(w),
    76 => mk::<(&'a mut A,&'a mut B,&'a mut C,&'a mut D)>(w),
    77 => mk::<(&'a A,&'a mut B,&'a C,&'a mut D)>(w),
    78 => mk::<(&'a D,&'a C,&'a B,&'a A)>(w),
    79 => mk::<(&'a mut D,&'a mut C,&'a mut B,&'a mut A)>(w),
    80 => mk::<(&'a D,&'a mut C,&'a B,&'a mut A)>(w),
    81 => mk::<(&'a B,&'a E,&'a A,&'a C)>(w),
    82 => mk::<(&'a mut B,&'a mut E,&'a mut A,&'a mut C)>(w),
    83 => mk::<(&'a B,&'a mut E,&'a A,&'a mut C)>(w),
    84 => mk::<(&'a A,&'a B,&'a C,&'a D,&'a E)>(w),
    85 => mk::<(&'a mut A,&'a mut B,&'a mut C,&'a mut D,&'a mut E)>(w),
    86 => mk::<(&'a mut A,&'a B,&'a mut C,&'a D,&'a mut E)>(w),
    87 => mk::<(&'a E,&'a D,&'a C,&'a B,&'a A)>(w),
    88 => mk::<(&'a mut E,&'a mut D,&'a mut C,&'a mut B,&'a mut A)>(w),
    89 => mk::<(&'a mut E,&'a D,&'a mut C,&'a B,&'a mut A)>(w),
    90 => mk::<(&'a C,&'a A,&'a E,&'a B,&'a D)>(w),
    91 => mk::<(&'a mut C,&'a mut A,&'a mut E,&'a mut B,&'a mut D)>(w),
    92 => mk::<(&'a mut C,&'a A,&'a mut E,&'a B,&'a mut D)>(w),
    93 => mk::<(&'a A,&'a A)>(w),
    94 => mk::<(&'a B,&'a A,&'a B)>(w),
    95 => mk::<(&'a A,(&'a B,&'a C))>(w),
    96 => mk::<((&'a A,&'a B),&'a C)>(w),
    97 => mk::<((&'a mut A,&'a B),&'a mut C)>(w),
    98 => mk::<(&'a mut A,(&'a mut B,&'a mut C))>(w),
    99 => mk::<((&'a A,&'a mut B),(&'a C,&'a mut D))>(w),
    100 => mk::<(&'a A,(&'a B,(&'a C,(&'a D,&'a E))))>(w),
    101 => mk::<((&'a C,&'a B,&'a A),&'a mut D)>(w),
    102 => mk::<(&'a mut E,(&'a A,&'a B,&'a C),&'a D)>(w),
    103 => mk::<((((&'a E,&'a mut D),&'a mut C),&'a mut B),&'a mut A)>(w),
    104 => mk::<FullOwning<&'a A,&'a B>>(w),
    105 => mk::<FullOwning<&'a A,&'a mut B>>(w),
    106 => mk::<FullOwning<&'a mut A,&'a B>>(w),
    107 => mk::<FullOwning<&'a mut A,&'a mut B>>(w),
    108 => mk::<FullOwning<&'a B,&'a A>>(w),
    109 => mk::<FullOwning<&'a B,&'a mut A>>(w),
    110 => mk::<FullOwning<&'a mut B,&'a A>>(w),
    111 => mk::<FullOwning<&'a mut B,&'a mut A>>(w),
    112 => mk::<FullOwning<&'a A,&'a C>>(w),
    113 => mk::<FullOwning<&'a A,&'a mut C>>(w),
    114 => mk::<FullOwning<&'a mut A,&'a C>>(w),
    115 => mk::<FullOwning<&'a mut A,&'a mut C>>(w),
    116 => mk::<FullOwning<&'a C,&'a A>>(w),
    117 => mk::<FullOwning<&'a C,&'a mut A>>(w),
    118 => mk::<FullOwning<&'a mut C,&'a A>>(w),
    119 => mk::<FullOwning<&'a mut C,&'a mut A>>(w),
    120 => mk::<FullOwning<&'a B,&'a C>>(w),
    121 => mk::<FullOwning<&'a B,&'a mut C>>(w),
    122 => mk::<FullOwning<&'a mut B,&'a C>>(w),
    123 => mk::<FullOwning<&'a mut B,&'a mut C>>(w),
    124 => mk::<FullOwning<&'a C,&'a B>>(w),
    125 => mk::<FullOwning<&'a C,&'a mut B>>(w),
    126 => mk::<FullOwning<&'a mut C,&'a B>>(w),
    127 => mk::<FullOwning<&'a mut C,&'a mut B>>(w),
    128 => mk::<FullOwning<&'a C,&'a D>>(w),
    129 => mk::<FullOwning<&'a C,&'a mut D>>(w),
    130 => mk::<FullOwning<&'a mut C,&'a D>>(w),
    131 => mk::<FullOwning<&'a mut C,&'a mut D>>(w),
    132 => mk::<FullOwning<&'a D,&'a A>>(w),
    133 => mk::<FullOwning<&'a D,&'a mut A>>(w),
    134 => mk::<FullOwning<&'a mut D,&'a A>>(w),
    135 => mk::<FullOwning<&'a mut D,&'a mut A>>(w),
    136 => mk::<FullOwning<&'a E,&'a B>>(w),
    137 => mk::<FullOwning<&'a E,&'a mut B>>(w),
    138 => mk::<FullOwning<&'a mut E,&'a B>>(w),
    139 => mk::<FullOwning<&'a mut E,&'a mut B>>(w),
    140 => mk::<FullOwning<&'a B,&'a E>>(w),
    141 => mk::<FullOwning<&'a B,&'a mut E>>(w),
    142 => mk::<FullOwning<&'a mut B,&'a E>>(w),
    143 => mk::<FullOwning<&'a mut B,&'a mut E>>(w),
    144 => mk::<PartialOwning<&'a A,&'a B>>(w),
    145 => mk::<PartialOwning<&'a A,&'a mut B>>(w),
    146 => mk::<PartialOwning<&'a mut A,&'a B>>(w),
    147 => mk::<PartialOwning<&'a mut A,&'a mut B>>(w),
    148 => mk::<PartialOwning<&'a B,&'a A>>(w),
    149 => mk::<PartialOwning<&'a B,&'a mut A>>(w),
    150 => mk::<PartialOwning<&'a mut B,&'a A>>(w),
    151 => mk::<PartialOwning<&'a mut B,&'a mut A>>(w),
    152 => mk::<PartialOwning<&'a A,&'a C>>(w),
    153 => mk::<PartialOwning<&'a A,&'a mut C>>(w),
    154 => mk::<PartialOwning<&'a mut A,&'a C>>(w),
    155 => mk::<PartialOwning<&'a mut A,&'a mut C>>(w),
    156 => mk::<PartialOwning<&'a C,&'a A>>(w),
    157 => mk::<PartialOwning<&'a C,&'a mut A>>(w),
    158 => mk::<PartialOwning<&'a mut C,&'a A>>(w),
    159 => mk::<PartialOwning<&'a mut C,&'a mut A>>(w),
    160 => mk::<PartialOwning<&'a B,&'a C>>(w),
    161 => mk::<PartialOwning<&'a B,&'a mut C>>(w),
    162 => mk::<PartialOwning<&'a mut B,&'a C>>(w),
    163 => mk::<PartialOwning<&'a mut B,&'a mut C>>(w),
    164 => mk::<PartialOwning<&'a C,&'a B>>(w),
    165 => mk::<PartialOwning<&'a C,&'a mut B>>(w),
    166 => mk::<PartialOwning<&'a mut C,&'a B>>(w),
    167 => mk::<PartialOwning<&'a mut C,&'a mut B>>(w),
    168 => mk::<PartialOwning<&'a C,&'a D>>(w),
    169 => mk::<PartialOwning<&'a C,&'a mut D>>(w),
    170 => mk::<PartialOwning<&'a mut C,&'a D>>(w),
    171 => mk::<PartialOwning<&'a mut C,&'a mut D>>(w),
    172 => mk::<PartialOwning<&'a D,&'a A>>(w),
    173 => mk::<PartialOwning<&'a D,&'a mut A>>(w),
    174 => mk::<PartialOwning<&'a mut D,&'a A>>(w),
    175 => mk::<PartialOwning<&'a mut D,&'a mut A>>(w),
    176 => mk::<PartialOwning<&'a E,&'a B>>(w),
    177 => mk::<PartialOwning<&'a E,&'a mut B>>(w),
    178 => mk::<PartialOwning<&'a mut E,&'a B>>(w),
    179 => mk::<PartialOwning<&'a mut E,&'a mut B>>(w),
    180 => mk::<PartialOwning<&'a B,&'a E>>(w),
    181 => mk::<PartialOwning<&'a B,&'a mut E>>(w),
    182 => mk::<PartialOwning<&'a mut B,&'a E>>(w),
    183 => mk::<PartialOwning<&'a mut B,&'a mut E>>(w),
    184 => mk::<NonOwning<&'a A,&'a B>>(w),
    185 => mk::<NonOwning<&'a A,&'a mut B>>(w),
    186 => mk::<NonOwning<&'a mut A,&'a B>>(w),
    187 => mk::<NonOwning<&'a mut A,&'a mut B>>(w),
    188 => mk::<NonOwning<&'a B,&'a A>>(w),
    189 => mk::<NonOwning<&'a B,&'a mut A>>(w),
    190 => mk::<NonOwning<&'a mut B,&'a A>>(w),
    191 => mk::<NonOwning<&'a mut B,&'a mut A>>(w),
    192 => mk::<NonOwning<&'a A,&'a C>>(w),
    193 => mk::<NonOwning<&'a A,&'a mut C>>(w),
    194 => mk::<NonOwning<&'a mut A,&'a C>>(w),
    195 => mk::<NonOwning<&'a mut A,&'a mut C>>(w),
    196 => mk::<NonOwning<&'a C,&'a A>>(w),
    197 => mk::<NonOwning<&'a C,&'a mut A>>(w),
    198 => mk::<NonOwning<&'a mut C,&'a A>>(w),
    199 => mk::<NonOwning<&'a mut C,&'a mut A>>(w),
    200 => mk::<NonOwning<&'a B,&'a C>>(w),
    201 => mk::<NonOwning<&'a B,&'a mut C>>(w),
    202 => mk::<NonOwning<&'a mut B,&'a C>>(w),
    203 => mk::<NonOwning<&'a mut B,&'a mut C>>(w),
    204 => mk::<NonOwning<&'a C,&'a B>>(w),
    205 => mk::<NonOwning<&'a C,&'a mut B>>(w),
    206 => mk::<NonOwning<&'a mut C,&'a B>>(w),
    207 => mk::<NonOwning<&'a mut C,&'a mut B>>(w),
    208 => mk::<NonOwning<&'a C,&'a D>>(w),
    209 => mk::<NonOwning<&'a C,&'a mut D>>(w),
    210 => mk::<NonOwning<&'a mut C,&'a D>>(w),
    211 => mk::<NonOwning<&'a mut C,&'a mut D>>(w),
    212 => mk::<NonOwning<&'a D,&'a A>>(w),
    213 => mk::<NonOwning<&'a D,&'a mut A>>(w),
    214 => mk::<NonOwning<&'a mut D,&'a A>>(w),
    215 => mk::<NonOwning<&'a mut D,&'a mut A>>(w),
    216 => mk::<NonOwning<&'a E,&'a B>>(w),
    217 => mk::<NonOwning<&'a E,&'a mut B>>(w),
    218 => mk::<NonOwning<&'a mut E,&'a B>>(w),
    219 => mk::<NonOwning<&'a mut E,&'a mut B>>(w),
    220 => mk::<NonOwning<&'a B,&'a E>>(w),
    221 => mk::<NonOwning<&'a B,&'a mut E>>(w),
    222 => mk::<NonOwning<&'a mut B,&'a E>>(w),
    223 => mk::<NonOwning<&'a mut B,&'a mut E>>(w),
    224 => mk::<(FullOwning<&'a A,&'a B>,&'a C)>(w),
    225 => mk::<(&'a C,FullOwning<&'a A,&'a B>)>(w),
    226 => mk::<(FullOwning<&'a mut A,&'a mut B>,&'a mut C)>(w),
    227 => mk::<(&'a D,FullOwning<&'a B,&'a mut A>)>(w),
    228 => mk::<(FullOwning<&'a mut A,&'a C>,&'a B,&'a E)>(w),
    229 => mk::<(FullOwning<&'a A,&'a B>,&'a A)>(w),
    230 => mk::<(FullOwning<&'a C,&'a B>,(&'a A,&'a mut D))>(w),
    231 => mk::<(PartialOwning<&'a A,&'a B>,&'a C)>(w),
    232 => mk::<(&'a C,PartialOwning<&'a A,&'a B>)>(w),
    233 => mk::<(PartialOwning<&'a mut A,&'a mut B>,&'a mut C)>(w),
    234 => mk::<(&'a D,PartialOwning<&'a B,&'a mut A>)>(w),
    235 => mk::<(PartialOwning<&'a mut A,&'a C>,&'a B,&'a E)>(w),
    236 => mk::<(PartialOwning<&'a A,&'a B>,&'a A)>(w),
    237 => mk::<(PartialOwning<&'a C,&'a B>,(&'a A,&'a mut D))>(w),
    238 => mk::<(NonOwning<&'a A,&'a B>,&'a C)>(w),
    239 => mk::<(&'a C,NonOwning<&'a A,&'a B>)>(w),
    240 => mk::<(NonOwning<&'a mut A,&'a mut B>,&'a mut C)>(w),
    241 => mk::<(&'a D,NonOwning<&'a B,&'a mut A>)>(w),
    242 => mk::<(NonOwning<&'a mut A,&'a C>,&'a B,&'a E)>(w),
    243 => mk::<(NonOwning<&'a A,&'a B>,&'a A)>(w),
    244 => mk::<(NonOwning<&'a C,&'a B>,(&'a A,&'a mut D))>(w),
    245 => mk::<(FullOwning<&'a A,&'a B>,NonOwning<&'a A,&'a C>)>(w),
    246 => mk::<(NonOwning<&'a A,&'a B>,PartialOwning<&'a C,&'a A>)>(w),
    247 => mk::<(PartialOwning<&'a A,&'a B>,PartialOwning<&'a B,&'a A>)>(w),
    248 => mk::<(FullOwning<&'a A,&'a B>,NonOwning<&'a A,&'a B>)>(w),
    249 => mk::<(FullOwning<&'a A,&'a B>,FullOwning<&'a C,&'a D>)>(w),
    250 => mk::<(NonOwning<&'a B,&'a C>,NonOwning<&'a C,&'a A>,&'a D)>(w),
    251 => mk::<(PartialOwning<&'a C,&'a B>,NonOwning<&'a A,&'a B>)>(w),
    252 => mk::<(&'a A,Without<&'a B>)>(w),
    253 => mk::<(Without<&'a B>,&'a A)>(w),
    254 => mk::<(&'a mut A,Without<&'a B>)>(w),
    255 => mk::<(Without<&'a B>,&'a mut A)>(w),
    256 => mk::<(&'a A,Without<&'a mut B>)>(w),
    257 => mk::<(Without<&'a mut B>,&'a A)>(w),
    258 => mk::<(&'a B,Without<&'a A>)>(w),
    259 => mk::<(Without<&'a A>,&'a B)>(w),
    260 => mk::<(&'a C,Without<&'a A>)>(w),
    261 => mk::<(Without<&'a A>,&'a C)>(w),
    262 => mk::<(&'a A,Without<&'a C>)>(w),
    263 => mk::<(Without<&'a C>,&'a A)>(w),
    264 => mk::<(&'a A,Without<&'a A>)>(w),
    265 => mk::<(Without<&'a A>,&'a A)>(w),
    266 => mk::<(&'a mut D,Without<&'a E>)>(w),
    267 => mk::<(Without<&'a E>,&'a mut D)>(w),
    268 => mk::<(&'a E,Without<&'a mut C>)>(w),
    269 => mk::<(Without<&'a mut C>,&'a E)>(w),
    270 => mk::<(&'a mut C,Without<&'a mut B>)>(w),
    271 => mk::<(Without<&'a mut B>,&'a mut C)>(w),
    272 => mk::<((&'a A,&'a B),Without<&'a C>)>(w),
    273 => mk::<(Without<&'a C>,(&'a A,&'a B))>(w),
    274 => mk::<((&'a mut A,&'a mut B),Without<&'a C>)>(w),
    275 => mk::<(Without<&'a C>,(&'a mut A,&'a mut B))>(w),
    276 => mk::<(&'a A,Without<(&'a B,&'a C)>)>(w),
    277 => mk::<(Without<(&'a B,&'a C)>,&'a A)>(w),
    278 => mk::<(&'a mut A,Without<(&'a B,&'a C)>)>(w),
    279 => mk::<(Without<(&'a B,&'a C)>,&'a mut A)>(w),
    280 => mk::<((&'a A,&'a C),Without<(&'a B,&'a D)>)>(w),
    281 => mk::<(Without<(&'a B,&'a D)>,(&'a A,&'a C))>(w),
    282 => mk::<((&'a A,&'a B,&'a C),Without<&'a D>)>(w),
    283 => mk::<(Without<&'a D>,(&'a A,&'a B,&'a C))>(w),
    284 => mk::<(&'a D,Without<(&'a A,&'a B,&'a C)>)>(w),
    285 => mk::<(Without<(&'a A,&'a B,&'a C)>,&'a D)>(w),
    286 => mk::<(FullOwning<&'a A,&'a B>,Without<&'a C>)>(w),
    287 => mk::<(Without<&'a C>,FullOwning<&'a A,&'a B>)>(w),
    288 => mk::<(FullOwning<&'a mut A,&'a mut B>,Without<&'a C>)>(w),
    289 => mk::<(Without<&'a C>,FullOwning<&'a mut A,&'a mut B>)>(w),
    290 => mk::<(&'a C,Without<FullOwning<&'a A,&'a B>>)>(w),
    291 => mk::<(Without<FullOwning<&'a A,&'a B>>,&'a C)>(w),
    292 => mk::<(&'a A,Without<FullOwning<&'a A,&'a B>>)>(w),
    293 => mk::<(Without<FullOwning<&'a A,&'a B>>,&'a A)>(w),
    294 => mk::<(&'a mut C,Without<FullOwning<&'a B,&'a A>>)>(w),
    295 => mk::<(Without<FullOwning<&'a B,&'a A>>,&'a mut C)>(w),
    296 => mk::<(FullOwning<&'a B,&'a mut C>,Without<(&'a A,&'a D)>)>(w),
    297 => mk::<(Without<(&'a A,&'a D)>,FullOwning<&'a B,&'a mut C>)>(w),
    298 => mk::<((&'a A,&'a D),Without<FullOwning<&'a A,&'a C>>)>(w),
    299 => mk::<(Without<FullOwning<&'a A,&'a C>>,(&'a A,&'a D))>(w),
    300 => mk::<(&'a B,Without<FullOwning<&'a B,&'a A>>)>(w),
    301 => mk::<(Without<FullOwning<&'a B,&'a A>>,&'a B)>(w),
    302 => mk::<(FullOwning<&'a mut C,&'a B>,Without<&'a A>)>(w),
    303 => mk::<(Without<&'a A>,FullOwning<&'a mut C,&'a B>)>(w),
    304 => mk::<(&'a A,Without<FullOwning<&'a C,&'a B>>)>(w),
    305 => mk::<(Without<FullOwning<&'a C,&'a B>>,&'a A)>(w),
    306 => mk::<(PartialOwning<&'a A,&'a B>,Without<&'a C>)>(w),
    307 => mk::<(Without<&'a C>,PartialOwning<&'a A,&'a B>)>(w),
    308 => mk::<(PartialOwning<&'a mut A,&'a mut B>,Without<&'a C>)>(w),
    309 => mk::<(Without<&'a C>,PartialOwning<&'a mut A,&'a mut B>)>(w),
    310 => mk::<(&'a C,Without<PartialOwning<&'a A,&'a B>>)>(w),
    311 => mk::<(Without<PartialOwning<&'a A,&'a B>>,&'a C)>(w),
    312 => mk::<(&'a A,Without<PartialOwning<&'a A,&'a B>>)>(w),
    313 => mk::<(Without<PartialOwning<&'a A,&'a B>>,&'a A)>(w),
    314 => mk::<(&'a mut C,Without<PartialOwning<&'a B,&'a A>>)>(w),
    315 => mk::<(Without<PartialOwning<&'a B,&'a A>>,&'a mut C)>(w),
    316 => mk::<(PartialOwning<&'a B,&'a mut C>,Without<(&'a A,&'a D)>)>(w),
    317 => mk::<(Without<(&'a A,&'a D)>,PartialOwning<&'a B,&'a mut C>)>(w),
    318 => mk::<((&'a A,&'a D),Without<PartialOwning<&'a A,&'a C>>)>(w),
    319 => mk::<(Without<PartialOwning<&'a A,&'a C>>,(&'a A,&'a D))>(w),
    320 => mk::<(&'a B,Without<PartialOwning<&'a B,&'a A>>)>(w),
    321 => mk::<(Without<PartialOwning<&'a B,&'a A>>,&'a B)>(w),
    322 => mk::<(PartialOwning<&'a mut C,&'a B>,Without<&'a A>)>(w),
    323 => mk::<(Without<&'a A>,PartialOwning<&'a mut C,&'a B>)>(w),
    324 => mk::<(&'a A,Without<PartialOwning<&'a C,&'a B>>)>(w),
    325 => mk::<(Without<PartialOwning<&'a C,&'a B>>,&'a A)>(w),
    326 => mk::<(NonOwning<&'a A,&'a B>,Without<&'a C>)>(w),
    327 => mk::<(Without<&'a C>,NonOwning<&'a A,&'a B>)>(w),
    328 => mk::<(NonOwning<&'a mut A,&'a mut B>,Without<&'a C>)>(w),
    329 => mk::<(Without<&'a C>,NonOwning<&'a mut A,&'a mut B>)>(w),
    330 => mk::<(&'a C,Without<NonOwning<&'a A,&'a B>>)>(w),
    331 => mk::<(Without<NonOwning<&'a A,&'a B>>,&'a C)>(w),
    332 => mk::<(&'a A,Without<NonOwning<&'a A,&'a B>>)>(w),
    333 => mk::<(Without<NonOwning<&'a A,&'a B>>,&'a A)>(w),
    334 => mk::<(&'a mut C,Without<NonOwning<&'a B,&'a A>>)>(w),
    335 => mk::<(Without<NonOwning<&'a B,&'a A>>,&'a mut C)>(w),
    336 => mk::<(NonOwning<&'a B,&'a mut C>,Without<(&'a A,&'a D)>)>(w),
    337 => mk::<(Without<(&'a A,&'a D)>,NonOwning<&'a B,&'a mut C>)>(w),
    338 => mk::<((&'a A,&'a D),Without<NonOwning<&'a A,&'a C>>)>(w),
    339 => mk::<(Without<NonOwning<&'a A,&'a C>>,(&'a A,&'a D))>(w),
    340 => mk::<(&'a B,Without<NonOwning<&'a B,&'a A>>)>(w),
    341 => mk::<(Without<NonOwning<&'a B,&'a A>>,&'a B)>(w),
    342 => mk::<(NonOwning<&'a mut C,&'a B>,Without<&'a A>)>(w),
    343 => mk::<(Without<&'a A>,NonOwning<&'a mut C,&'a B>)>(w),
    344 => mk::<(&'a A,Without<NonOwning<&'a C,&'a B>>)>(w),
    345 => mk::<(Without<NonOwning<&'a C,&'a B>>,&'a A)>(w),
    346 => mk::<((&'a A,Without<&'a B>),Without<&'a C>)>(w),
    347 => mk::<(Without<&'a C>,(Without<&'a B>,&'a A))>(w),
    348 => mk::<(Without<&'a C>,(&'a A,Without<&'a B>))>(w),
    349 => mk::<((Without<&'a B>,&'a mut A),Without<&'a C>)>(w),
    350 => mk::<(&'a A,Without<(&'a B,Without<&'a C>)>)>(w),
    351 => mk::<(Without<(&'a B,Without<&'a C>)>,&'a A)>(w),
    352 => mk::<(&'a mut A,Without<(Without<&'a C>,&'a B)>)>(w),
    353 => mk::<(Without<(Without<&'a C>,&'a B)>,&'a mut A)>(w),
    354 => mk::<(&'a D,(&'a A,Without<&'a B>))>(w),
    355 => mk::<((&'a A,Without<&'a B>),&'a D)>(w),
    356 => mk::<((Without<&'a B>,&'a mut A),&'a mut D)>(w),
    357 => mk::<(&'a mut C,(Without<&'a B>,&'a A),&'a D)>(w),
    358 => mk::<((&'a A,(&'a B,Without<&'a C>)),Without<&'a D>)>(w),
    359 => mk::<((&'a A,Without<&'a B>),(Without<&'a C>,&'a D))>(w),
    360 => mk::<((&'a A,(Without<&'a E>,&'a D)),Without<(&'a B,&'a C)>)>(w),
    361 => mk::<(&'a A,Without<(&'a A,Without<&'a B>)>)>(w),
    362 => mk::<(Without<(&'a A,Without<(&'a A,Without<&'a B>)>)>,&'a A)>(w),
    363 => mk::<(NonOwning<&'a A,&'a B>,Without<NonOwning<&'a B,&'a C>>)>(w),
    364 => mk::<(Without<FullOwning<&'a A,&'a B>>,NonOwning<&'a A,&'a C>)>(w),
    365 => mk::<(PartialOwning<&'a A,&'a B>,Without<(&'a A,Without<&'a C>)>)>(w),
    _ => panic!("no such query") } }
pub struct Meta { pub text: &'static str, pub types: &'static str, pub groups: &'static [(char,char,char)], pub class: char, pub muts: usize }
#[rustfmt::skip]
pub const META: &[Meta] = &[
    Meta { text: "&A", types: "A", groups: &[], class: 'S', muts: 0 },
    Meta { text: "&mut A", types: "A", groups: &[], class: 'S', muts: 1 },
    Meta { text: "&B", types: "B", groups: &[], class: 'S', muts: 0 },
    Meta { text: "&mut B", types: "B", groups: &[], class: 'S', muts: 1 },
    Meta { text: "&C", types: "C", groups: &[], class: 'S', muts: 0 },
    Meta { text: "&mut C", types: "C", groups: &[], class: 'S', muts: 1 },
    Meta { text: "&D", types: "D", groups: &[], class: 'S', muts: 0 },
    Meta { text: "&mut D", types: "D", groups: &[], class: 'S', muts: 1 },
    Meta { text: "&E", types: "E", groups: &[], class: 'S', muts: 0 },
    Meta { text: "&mut E", types: "E", groups: &[], class: 'S', muts: 1 },
    Meta { text: "(&A,&B)", types: "AB", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&A,&mut B)", types: "AB", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut A,&B)", types: "AB", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut A,&mut B)", types: "AB", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&B,&A)", types: "AB", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&B,&mut A)", types: "AB", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut B,&A)", types: "AB", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut B,&mut A)", types: "AB", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&A,&C)", types: "AC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&A,&mut C)", types: "AC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut A,&C)", types: "AC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut A,&mut C)", types: "AC", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&C,&A)", types: "AC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&C,&mut A)", types: "AC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut C,&A)", types: "AC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut C,&mut A)", types: "AC", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&B,&C)", types: "BC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&B,&mut C)", types: "BC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut B,&C)", types: "BC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut B,&mut C)", types: "BC", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&C,&B)", types: "BC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&C,&mut B)", types: "BC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut C,&B)", types: "BC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut C,&mut B)", types: "BC", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&D,&A)", types: "AD", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&D,&mut A)", types: "AD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut D,&A)", types: "AD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut D,&mut A)", types: "AD", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&B,&D)", types: "BD", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&B,&mut D)", types: "BD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut B,&D)", types: "BD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut B,&mut D)", types: "BD", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&E,&A)", types: "AE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&E,&mut A)", types: "AE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut E,&A)", types: "AE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut E,&mut A)", types: "AE", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&A,&E)", types: "AE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&A,&mut E)", types: "AE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut A,&E)", types: "AE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut A,&mut E)", types: "AE", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&C,&D)", types: "CD", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&C,&mut D)", types: "CD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut C,&D)", types: "CD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut C,&mut D)", types: "CD", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&D,&E)", types: "DE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&D,&mut E)", types: "DE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut D,&E)", types: "DE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut D,&mut E)", types: "DE", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&A,&B,&C)", types: "ABC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut A,&B,&mut C)", types: "ABC", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&A,&mut B,&C)", types: "ABC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut A,&mut B,&mut C)", types: "ABC", groups: &[], class: 'T', muts: 3 },
    Meta { text: "(&C,&B,&A)", types: "ABC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut C,&B,&mut A)", types: "ABC", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&C,&mut B,&A)", types: "ABC", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut C,&mut B,&mut A)", types: "ABC", groups: &[], class: 'T', muts: 3 },
    Meta { text: "(&B,&A,&D)", types: "ABD", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut B,&A,&mut D)", types: "ABD", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&B,&mut A,&D)", types: "ABD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut B,&mut A,&mut D)", types: "ABD", groups: &[], class: 'T', muts: 3 },
    Meta { text: "(&D,&C,&E)", types: "CDE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut D,&C,&mut E)", types: "CDE", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&D,&mut C,&E)", types: "CDE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut D,&mut C,&mut E)", types: "CDE", groups: &[], class: 'T', muts: 3 },
    Meta { text: "(&A,&B,&C,&D)", types: "ABCD", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut A,&mut B,&mut C,&mut D)", types: "ABCD", groups: &[], class: 'T', muts: 4 },
    Meta { text: "(&A,&mut B,&C,&mut D)", types: "ABCD", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&D,&C,&B,&A)", types: "ABCD", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut D,&mut C,&mut B,&mut A)", types: "ABCD", groups: &[], class: 'T', muts: 4 },
    Meta { text: "(&D,&mut C,&B,&mut A)", types: "ABCD", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&B,&E,&A,&C)", types: "ABCE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut B,&mut E,&mut A,&mut C)", types: "ABCE", groups: &[], class: 'T', muts: 4 },
    Meta { text: "(&B,&mut E,&A,&mut C)", types: "ABCE", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&A,&B,&C,&D,&E)", types: "ABCDE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut A,&mut B,&mut C,&mut D,&mut E)", types: "ABCDE", groups: &[], class: 'T', muts: 5 },
    Meta { text: "(&mut A,&B,&mut C,&D,&mut E)", types: "ABCDE", groups: &[], class: 'T', muts: 3 },
    Meta { text: "(&E,&D,&C,&B,&A)", types: "ABCDE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut E,&mut D,&mut C,&mut B,&mut A)", types: "ABCDE", groups: &[], class: 'T', muts: 5 },
    Meta { text: "(&mut E,&D,&mut C,&B,&mut A)", types: "ABCDE", groups: &[], class: 'T', muts: 3 },
    Meta { text: "(&C,&A,&E,&B,&D)", types: "ABCDE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&mut C,&mut A,&mut E,&mut B,&mut D)", types: "ABCDE", groups: &[], class: 'T', muts: 5 },
    Meta { text: "(&mut C,&A,&mut E,&B,&mut D)", types: "ABCDE", groups: &[], class: 'T', muts: 3 },
    Meta { text: "(&A,&A)", types: "A", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&B,&A,&B)", types: "AB", groups: &[], class: 'T', muts: 0 },
    Meta { text: "(&A,(&B,&C))", types: "ABC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "((&A,&B),&C)", types: "ABC", groups: &[], class: 'T', muts: 0 },
    Meta { text: "((&mut A,&B),&mut C)", types: "ABC", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&mut A,(&mut B,&mut C))", types: "ABC", groups: &[], class: 'T', muts: 3 },
    Meta { text: "((&A,&mut B),(&C,&mut D))", types: "ABCD", groups: &[], class: 'T', muts: 2 },
    Meta { text: "(&A,(&B,(&C,(&D,&E))))", types: "ABCDE", groups: &[], class: 'T', muts: 0 },
    Meta { text: "((&C,&B,&A),&mut D)", types: "ABCD", groups: &[], class: 'T', muts: 1 },
    Meta { text: "(&mut E,(&A,&B,&C),&D)", types: "ABCDE", groups: &[], class: 'T', muts: 1 },
    Meta { text: "((((&E,&mut D),&mut C),&mut B),&mut A)", types: "ABCDE", groups: &[], class: 'T', muts: 4 },
    Meta { text: "FullOwning<&A,&B>", types: "AB", groups: &[('F','A','B')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&A,&mut B>", types: "AB", groups: &[('F','A','B')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut A,&B>", types: "AB", groups: &[('F','A','B')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut A,&mut B>", types: "AB", groups: &[('F','A','B')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&B,&A>", types: "AB", groups: &[('F','B','A')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&B,&mut A>", types: "AB", groups: &[('F','B','A')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut B,&A>", types: "AB", groups: &[('F','B','A')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut B,&mut A>", types: "AB", groups: &[('F','B','A')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&A,&C>", types: "AC", groups: &[('F','A','C')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&A,&mut C>", types: "AC", groups: &[('F','A','C')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut A,&C>", types: "AC", groups: &[('F','A','C')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut A,&mut C>", types: "AC", groups: &[('F','A','C')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&C,&A>", types: "AC", groups: &[('F','C','A')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&C,&mut A>", types: "AC", groups: &[('F','C','A')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut C,&A>", types: "AC", groups: &[('F','C','A')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut C,&mut A>", types: "AC", groups: &[('F','C','A')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&B,&C>", types: "BC", groups: &[('F','B','C')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&B,&mut C>", types: "BC", groups: &[('F','B','C')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut B,&C>", types: "BC", groups: &[('F','B','C')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut B,&mut C>", types: "BC", groups: &[('F','B','C')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&C,&B>", types: "BC", groups: &[('F','C','B')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&C,&mut B>", types: "BC", groups: &[('F','C','B')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut C,&B>", types: "BC", groups: &[('F','C','B')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut C,&mut B>", types: "BC", groups: &[('F','C','B')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&C,&D>", types: "CD", groups: &[('F','C','D')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&C,&mut D>", types: "CD", groups: &[('F','C','D')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut C,&D>", types: "CD", groups: &[('F','C','D')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut C,&mut D>", types: "CD", groups: &[('F','C','D')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&D,&A>", types: "AD", groups: &[('F','D','A')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&D,&mut A>", types: "AD", groups: &[('F','D','A')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut D,&A>", types: "AD", groups: &[('F','D','A')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut D,&mut A>", types: "AD", groups: &[('F','D','A')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&E,&B>", types: "BE", groups: &[('F','E','B')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&E,&mut B>", types: "BE", groups: &[('F','E','B')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut E,&B>", types: "BE", groups: &[('F','E','B')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut E,&mut B>", types: "BE", groups: &[('F','E','B')], class: 'G', muts: 2 },
    Meta { text: "FullOwning<&B,&E>", types: "BE", groups: &[('F','B','E')], class: 'G', muts: 0 },
    Meta { text: "FullOwning<&B,&mut E>", types: "BE", groups: &[('F','B','E')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut B,&E>", types: "BE", groups: &[('F','B','E')], class: 'G', muts: 1 },
    Meta { text: "FullOwning<&mut B,&mut E>", types: "BE", groups: &[('F','B','E')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&A,&B>", types: "AB", groups: &[('P','A','B')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&A,&mut B>", types: "AB", groups: &[('P','A','B')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut A,&B>", types: "AB", groups: &[('P','A','B')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut A,&mut B>", types: "AB", groups: &[('P','A','B')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&B,&A>", types: "AB", groups: &[('P','B','A')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&B,&mut A>", types: "AB", groups: &[('P','B','A')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut B,&A>", types: "AB", groups: &[('P','B','A')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut B,&mut A>", types: "AB", groups: &[('P','B','A')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&A,&C>", types: "AC", groups: &[('P','A','C')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&A,&mut C>", types: "AC", groups: &[('P','A','C')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut A,&C>", types: "AC", groups: &[('P','A','C')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut A,&mut C>", types: "AC", groups: &[('P','A','C')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&C,&A>", types: "AC", groups: &[('P','C','A')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&C,&mut A>", types: "AC", groups: &[('P','C','A')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut C,&A>", types: "AC", groups: &[('P','C','A')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut C,&mut A>", types: "AC", groups: &[('P','C','A')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&B,&C>", types: "BC", groups: &[('P','B','C')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&B,&mut C>", types: "BC", groups: &[('P','B','C')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut B,&C>", types: "BC", groups: &[('P','B','C')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut B,&mut C>", types: "BC", groups: &[('P','B','C')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&C,&B>", types: "BC", groups: &[('P','C','B')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&C,&mut B>", types: "BC", groups: &[('P','C','B')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut C,&B>", types: "BC", groups: &[('P','C','B')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut C,&mut B>", types: "BC", groups: &[('P','C','B')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&C,&D>", types: "CD", groups: &[('P','C','D')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&C,&mut D>", types: "CD", groups: &[('P','C','D')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut C,&D>", types: "CD", groups: &[('P','C','D')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut C,&mut D>", types: "CD", groups: &[('P','C','D')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&D,&A>", types: "AD", groups: &[('P','D','A')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&D,&mut A>", types: "AD", groups: &[('P','D','A')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut D,&A>", types: "AD", groups: &[('P','D','A')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut D,&mut A>", types: "AD", groups: &[('P','D','A')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&E,&B>", types: "BE", groups: &[('P','E','B')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&E,&mut B>", types: "BE", groups: &[('P','E','B')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut E,&B>", types: "BE", groups: &[('P','E','B')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut E,&mut B>", types: "BE", groups: &[('P','E','B')], class: 'G', muts: 2 },
    Meta { text: "PartialOwning<&B,&E>", types: "BE", groups: &[('P','B','E')], class: 'G', muts: 0 },
    Meta { text: "PartialOwning<&B,&mut E>", types: "BE", groups: &[('P','B','E')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut B,&E>", types: "BE", groups: &[('P','B','E')], class: 'G', muts: 1 },
    Meta { text: "PartialOwning<&mut B,&mut E>", types: "BE", groups: &[('P','B','E')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&A,&B>", types: "AB", groups: &[('N','A','B')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&A,&mut B>", types: "AB", groups: &[('N','A','B')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut A,&B>", types: "AB", groups: &[('N','A','B')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut A,&mut B>", types: "AB", groups: &[('N','A','B')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&B,&A>", types: "AB", groups: &[('N','B','A')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&B,&mut A>", types: "AB", groups: &[('N','B','A')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut B,&A>", types: "AB", groups: &[('N','B','A')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut B,&mut A>", types: "AB", groups: &[('N','B','A')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&A,&C>", types: "AC", groups: &[('N','A','C')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&A,&mut C>", types: "AC", groups: &[('N','A','C')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut A,&C>", types: "AC", groups: &[('N','A','C')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut A,&mut C>", types: "AC", groups: &[('N','A','C')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&C,&A>", types: "AC", groups: &[('N','C','A')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&C,&mut A>", types: "AC", groups: &[('N','C','A')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut C,&A>", types: "AC", groups: &[('N','C','A')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut C,&mut A>", types: "AC", groups: &[('N','C','A')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&B,&C>", types: "BC", groups: &[('N','B','C')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&B,&mut C>", types: "BC", groups: &[('N','B','C')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut B,&C>", types: "BC", groups: &[('N','B','C')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut B,&mut C>", types: "BC", groups: &[('N','B','C')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&C,&B>", types: "BC", groups: &[('N','C','B')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&C,&mut B>", types: "BC", groups: &[('N','C','B')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut C,&B>", types: "BC", groups: &[('N','C','B')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut C,&mut B>", types: "BC", groups: &[('N','C','B')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&C,&D>", types: "CD", groups: &[('N','C','D')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&C,&mut D>", types: "CD", groups: &[('N','C','D')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut C,&D>", types: "CD", groups: &[('N','C','D')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut C,&mut D>", types: "CD", groups: &[('N','C','D')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&D,&A>", types: "AD", groups: &[('N','D','A')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&D,&mut A>", types: "AD", groups: &[('N','D','A')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut D,&A>", types: "AD", groups: &[('N','D','A')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut D,&mut A>", types: "AD", groups: &[('N','D','A')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&E,&B>", types: "BE", groups: &[('N','E','B')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&E,&mut B>", types: "BE", groups: &[('N','E','B')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut E,&B>", types: "BE", groups: &[('N','E','B')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut E,&mut B>", types: "BE", groups: &[('N','E','B')], class: 'G', muts: 2 },
    Meta { text: "NonOwning<&B,&E>", types: "BE", groups: &[('N','B','E')], class: 'G', muts: 0 },
    Meta { text: "NonOwning<&B,&mut E>", types: "BE", groups: &[('N','B','E')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut B,&E>", types: "BE", groups: &[('N','B','E')], class: 'G', muts: 1 },
    Meta { text: "NonOwning<&mut B,&mut E>", types: "BE", groups: &[('N','B','E')], class: 'G', muts: 2 },
    Meta { text: "(FullOwning<&A,&B>,&C)", types: "ABC", groups: &[('F','A','B')], class: 'H', muts: 0 },
    Meta { text: "(&C,FullOwning<&A,&B>)", types: "ABC", groups: &[('F','A','B')], class: 'H', muts: 0 },
    Meta { text: "(FullOwning<&mut A,&mut B>,&mut C)", types: "ABC", groups: &[('F','A','B')], class: 'H', muts: 3 },
    Meta { text: "(&D,FullOwning<&B,&mut A>)", types: "ABD", groups: &[('F','B','A')], class: 'H', muts: 1 },
    Meta { text: "(FullOwning<&mut A,&C>,&B,&E)", types: "ABCE", groups: &[('F','A','C')], class: 'H', muts: 1 },
    Meta { text: "(FullOwning<&A,&B>,&A)", types: "AB", groups: &[('F','A','B')], class: 'H', muts: 0 },
    Meta { text: "(FullOwning<&C,&B>,(&A,&mut D))", types: "ABCD", groups: &[('F','C','B')], class: 'H', muts: 1 },
    Meta { text: "(PartialOwning<&A,&B>,&C)", types: "ABC", groups: &[('P','A','B')], class: 'H', muts: 0 },
    Meta { text: "(&C,PartialOwning<&A,&B>)", types: "ABC", groups: &[('P','A','B')], class: 'H', muts: 0 },
    Meta { text: "(PartialOwning<&mut A,&mut B>,&mut C)", types: "ABC", groups: &[('P','A','B')], class: 'H', muts: 3 },
    Meta { text: "(&D,PartialOwning<&B,&mut A>)", types: "ABD", groups: &[('P','B','A')], class: 'H', muts: 1 },
    Meta { text: "(PartialOwning<&mut A,&C>,&B,&E)", types: "ABCE", groups: &[('P','A','C')], class: 'H', muts: 1 },
    Meta { text: "(PartialOwning<&A,&B>,&A)", types: "AB", groups: &[('P','A','B')], class: 'H', muts: 0 },
    Meta { text: "(PartialOwning<&C,&B>,(&A,&mut D))", types: "ABCD", groups: &[('P','C','B')], class: 'H', muts: 1 },
    Meta { text: "(NonOwning<&A,&B>,&C)", types: "ABC", groups: &[('N','A','B')], class: 'H', muts: 0 },
    Meta { text: "(&C,NonOwning<&A,&B>)", types: "ABC", groups: &[('N','A','B')], class: 'H', muts: 0 },
    Meta { text: "(NonOwning<&mut A,&mut B>,&mut C)", types: "ABC", groups: &[('N','A','B')], class: 'H', muts: 3 },
    Meta { text: "(&D,NonOwning<&B,&mut A>)", types: "ABD", groups: &[('N','B','A')], class: 'H', muts: 1 },
    Meta { text: "(NonOwning<&mut A,&C>,&B,&E)", types: "ABCE", groups: &[('N','A','C')], class: 'H', muts: 1 },
    Meta { text: "(NonOwning<&A,&B>,&A)", types: "AB", groups: &[('N','A','B')], class: 'H', muts: 0 },
    Meta { text: "(NonOwning<&C,&B>,(&A,&mut D))", types: "ABCD", groups: &[('N','C','B')], class: 'H', muts: 1 },
    Meta { text: "(FullOwning<&A,&B>,NonOwning<&A,&C>)", types: "ABC", groups: &[('F','A','B'), ('N','A','C')], class: 'H', muts: 0 },
    Meta { text: "(NonOwning<&A,&B>,PartialOwning<&C,&A>)", types: "ABC", groups: &[('N','A','B'), ('P','C','A')], class: 'H', muts: 0 },
    Meta { text: "(PartialOwning<&A,&B>,PartialOwning<&B,&A>)", types: "AB", groups: &[('P','A','B'), ('P','B','A')], class: 'H', muts: 0 },
    Meta { text: "(FullOwning<&A,&B>,NonOwning<&A,&B>)", types: "AB", groups: &[('F','A','B'), ('N','A','B')], class: 'H', muts: 0 },
    Meta { text: "(FullOwning<&A,&B>,FullOwning<&C,&D>)", types: "ABCD", groups: &[('F','A','B'), ('F','C','D')], class: 'H', muts: 0 },
    Meta { text: "(NonOwning<&B,&C>,NonOwning<&C,&A>,&D)", types: "ABCD", groups: &[('N','B','C'), ('N','C','A')], class: 'H', muts: 0 },
    Meta { text: "(PartialOwning<&C,&B>,NonOwning<&A,&B>)", types: "ABC", groups: &[('P','C','B'), ('N','A','B')], class: 'H', muts: 0 },
    Meta { text: "(&A,Without<&B>)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&B>,&A)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&mut A,Without<&B>)", types: "AB", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(Without<&B>,&mut A)", types: "AB", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(&A,Without<&mut B>)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&mut B>,&A)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&B,Without<&A>)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&A>,&B)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&C,Without<&A>)", types: "AC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&A>,&C)", types: "AC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&A,Without<&C>)", types: "AC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&C>,&A)", types: "AC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&A,Without<&A>)", types: "A", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&A>,&A)", types: "A", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&mut D,Without<&E>)", types: "DE", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(Without<&E>,&mut D)", types: "DE", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(&E,Without<&mut C>)", types: "CE", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&mut C>,&E)", types: "CE", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&mut C,Without<&mut B>)", types: "BC", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(Without<&mut B>,&mut C)", types: "BC", groups: &[], class: 'W', muts: 1 },
    Meta { text: "((&A,&B),Without<&C>)", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&C>,(&A,&B))", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "((&mut A,&mut B),Without<&C>)", types: "ABC", groups: &[], class: 'W', muts: 2 },
    Meta { text: "(Without<&C>,(&mut A,&mut B))", types: "ABC", groups: &[], class: 'W', muts: 2 },
    Meta { text: "(&A,Without<(&B,&C)>)", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<(&B,&C)>,&A)", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&mut A,Without<(&B,&C)>)", types: "ABC", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(Without<(&B,&C)>,&mut A)", types: "ABC", groups: &[], class: 'W', muts: 1 },
    Meta { text: "((&A,&C),Without<(&B,&D)>)", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<(&B,&D)>,(&A,&C))", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "((&A,&B,&C),Without<&D>)", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&D>,(&A,&B,&C))", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&D,Without<(&A,&B,&C)>)", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<(&A,&B,&C)>,&D)", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(FullOwning<&A,&B>,Without<&C>)", types: "ABC", groups: &[('F','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<&C>,FullOwning<&A,&B>)", types: "ABC", groups: &[('F','A','B')], class: 'W', muts: 0 },
    Meta { text: "(FullOwning<&mut A,&mut B>,Without<&C>)", types: "ABC", groups: &[('F','A','B')], class: 'W', muts: 2 },
    Meta { text: "(Without<&C>,FullOwning<&mut A,&mut B>)", types: "ABC", groups: &[('F','A','B')], class: 'W', muts: 2 },
    Meta { text: "(&C,Without<FullOwning<&A,&B>>)", types: "ABC", groups: &[('F','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<FullOwning<&A,&B>>,&C)", types: "ABC", groups: &[('F','A','B')], class: 'W', muts: 0 },
    Meta { text: "(&A,Without<FullOwning<&A,&B>>)", types: "AB", groups: &[('F','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<FullOwning<&A,&B>>,&A)", types: "AB", groups: &[('F','A','B')], class: 'W', muts: 0 },
    Meta { text: "(&mut C,Without<FullOwning<&B,&A>>)", types: "ABC", groups: &[('F','B','A')], class: 'W', muts: 1 },
    Meta { text: "(Without<FullOwning<&B,&A>>,&mut C)", types: "ABC", groups: &[('F','B','A')], class: 'W', muts: 1 },
    Meta { text: "(FullOwning<&B,&mut C>,Without<(&A,&D)>)", types: "ABCD", groups: &[('F','B','C')], class: 'W', muts: 1 },
    Meta { text: "(Without<(&A,&D)>,FullOwning<&B,&mut C>)", types: "ABCD", groups: &[('F','B','C')], class: 'W', muts: 1 },
    Meta { text: "((&A,&D),Without<FullOwning<&A,&C>>)", types: "ACD", groups: &[('F','A','C')], class: 'W', muts: 0 },
    Meta { text: "(Without<FullOwning<&A,&C>>,(&A,&D))", types: "ACD", groups: &[('F','A','C')], class: 'W', muts: 0 },
    Meta { text: "(&B,Without<FullOwning<&B,&A>>)", types: "AB", groups: &[('F','B','A')], class: 'W', muts: 0 },
    Meta { text: "(Without<FullOwning<&B,&A>>,&B)", types: "AB", groups: &[('F','B','A')], class: 'W', muts: 0 },
    Meta { text: "(FullOwning<&mut C,&B>,Without<&A>)", types: "ABC", groups: &[('F','C','B')], class: 'W', muts: 1 },
    Meta { text: "(Without<&A>,FullOwning<&mut C,&B>)", types: "ABC", groups: &[('F','C','B')], class: 'W', muts: 1 },
    Meta { text: "(&A,Without<FullOwning<&C,&B>>)", types: "ABC", groups: &[('F','C','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<FullOwning<&C,&B>>,&A)", types: "ABC", groups: &[('F','C','B')], class: 'W', muts: 0 },
    Meta { text: "(PartialOwning<&A,&B>,Without<&C>)", types: "ABC", groups: &[('P','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<&C>,PartialOwning<&A,&B>)", types: "ABC", groups: &[('P','A','B')], class: 'W', muts: 0 },
    Meta { text: "(PartialOwning<&mut A,&mut B>,Without<&C>)", types: "ABC", groups: &[('P','A','B')], class: 'W', muts: 2 },
    Meta { text: "(Without<&C>,PartialOwning<&mut A,&mut B>)", types: "ABC", groups: &[('P','A','B')], class: 'W', muts: 2 },
    Meta { text: "(&C,Without<PartialOwning<&A,&B>>)", types: "ABC", groups: &[('P','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<PartialOwning<&A,&B>>,&C)", types: "ABC", groups: &[('P','A','B')], class: 'W', muts: 0 },
    Meta { text: "(&A,Without<PartialOwning<&A,&B>>)", types: "AB", groups: &[('P','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<PartialOwning<&A,&B>>,&A)", types: "AB", groups: &[('P','A','B')], class: 'W', muts: 0 },
    Meta { text: "(&mut C,Without<PartialOwning<&B,&A>>)", types: "ABC", groups: &[('P','B','A')], class: 'W', muts: 1 },
    Meta { text: "(Without<PartialOwning<&B,&A>>,&mut C)", types: "ABC", groups: &[('P','B','A')], class: 'W', muts: 1 },
    Meta { text: "(PartialOwning<&B,&mut C>,Without<(&A,&D)>)", types: "ABCD", groups: &[('P','B','C')], class: 'W', muts: 1 },
    Meta { text: "(Without<(&A,&D)>,PartialOwning<&B,&mut C>)", types: "ABCD", groups: &[('P','B','C')], class: 'W', muts: 1 },
    Meta { text: "((&A,&D),Without<PartialOwning<&A,&C>>)", types: "ACD", groups: &[('P','A','C')], class: 'W', muts: 0 },
    Meta { text: "(Without<PartialOwning<&A,&C>>,(&A,&D))", types: "ACD", groups: &[('P','A','C')], class: 'W', muts: 0 },
    Meta { text: "(&B,Without<PartialOwning<&B,&A>>)", types: "AB", groups: &[('P','B','A')], class: 'W', muts: 0 },
    Meta { text: "(Without<PartialOwning<&B,&A>>,&B)", types: "AB", groups: &[('P','B','A')], class: 'W', muts: 0 },
    Meta { text: "(PartialOwning<&mut C,&B>,Without<&A>)", types: "ABC", groups: &[('P','C','B')], class: 'W', muts: 1 },
    Meta { text: "(Without<&A>,PartialOwning<&mut C,&B>)", types: "ABC", groups: &[('P','C','B')], class: 'W', muts: 1 },
    Meta { text: "(&A,Without<PartialOwning<&C,&B>>)", types: "ABC", groups: &[('P','C','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<PartialOwning<&C,&B>>,&A)", types: "ABC", groups: &[('P','C','B')], class: 'W', muts: 0 },
    Meta { text: "(NonOwning<&A,&B>,Without<&C>)", types: "ABC", groups: &[('N','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<&C>,NonOwning<&A,&B>)", types: "ABC", groups: &[('N','A','B')], class: 'W', muts: 0 },
    Meta { text: "(NonOwning<&mut A,&mut B>,Without<&C>)", types: "ABC", groups: &[('N','A','B')], class: 'W', muts: 2 },
    Meta { text: "(Without<&C>,NonOwning<&mut A,&mut B>)", types: "ABC", groups: &[('N','A','B')], class: 'W', muts: 2 },
    Meta { text: "(&C,Without<NonOwning<&A,&B>>)", types: "ABC", groups: &[('N','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<NonOwning<&A,&B>>,&C)", types: "ABC", groups: &[('N','A','B')], class: 'W', muts: 0 },
    Meta { text: "(&A,Without<NonOwning<&A,&B>>)", types: "AB", groups: &[('N','A','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<NonOwning<&A,&B>>,&A)", types: "AB", groups: &[('N','A','B')], class: 'W', muts: 0 },
    Meta { text: "(&mut C,Without<NonOwning<&B,&A>>)", types: "ABC", groups: &[('N','B','A')], class: 'W', muts: 1 },
    Meta { text: "(Without<NonOwning<&B,&A>>,&mut C)", types: "ABC", groups: &[('N','B','A')], class: 'W', muts: 1 },
    Meta { text: "(NonOwning<&B,&mut C>,Without<(&A,&D)>)", types: "ABCD", groups: &[('N','B','C')], class: 'W', muts: 1 },
    Meta { text: "(Without<(&A,&D)>,NonOwning<&B,&mut C>)", types: "ABCD", groups: &[('N','B','C')], class: 'W', muts: 1 },
    Meta { text: "((&A,&D),Without<NonOwning<&A,&C>>)", types: "ACD", groups: &[('N','A','C')], class: 'W', muts: 0 },
    Meta { text: "(Without<NonOwning<&A,&C>>,(&A,&D))", types: "ACD", groups: &[('N','A','C')], class: 'W', muts: 0 },
    Meta { text: "(&B,Without<NonOwning<&B,&A>>)", types: "AB", groups: &[('N','B','A')], class: 'W', muts: 0 },
    Meta { text: "(Without<NonOwning<&B,&A>>,&B)", types: "AB", groups: &[('N','B','A')], class: 'W', muts: 0 },
    Meta { text: "(NonOwning<&mut C,&B>,Without<&A>)", types: "ABC", groups: &[('N','C','B')], class: 'W', muts: 1 },
    Meta { text: "(Without<&A>,NonOwning<&mut C,&B>)", types: "ABC", groups: &[('N','C','B')], class: 'W', muts: 1 },
    Meta { text: "(&A,Without<NonOwning<&C,&B>>)", types: "ABC", groups: &[('N','C','B')], class: 'W', muts: 0 },
    Meta { text: "(Without<NonOwning<&C,&B>>,&A)", types: "ABC", groups: &[('N','C','B')], class: 'W', muts: 0 },
    Meta { text: "((&A,Without<&B>),Without<&C>)", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&C>,(Without<&B>,&A))", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<&C>,(&A,Without<&B>))", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "((Without<&B>,&mut A),Without<&C>)", types: "ABC", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(&A,Without<(&B,Without<&C>)>)", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<(&B,Without<&C>)>,&A)", types: "ABC", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&mut A,Without<(Without<&C>,&B)>)", types: "ABC", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(Without<(Without<&C>,&B)>,&mut A)", types: "ABC", groups: &[], class: 'W', muts: 1 },
    Meta { text: "(&D,(&A,Without<&B>))", types: "ABD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "((&A,Without<&B>),&D)", types: "ABD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "((Without<&B>,&mut A),&mut D)", types: "ABD", groups: &[], class: 'W', muts: 2 },
    Meta { text: "(&mut C,(Without<&B>,&A),&D)", types: "ABCD", groups: &[], class: 'W', muts: 1 },
    Meta { text: "((&A,(&B,Without<&C>)),Without<&D>)", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "((&A,Without<&B>),(Without<&C>,&D))", types: "ABCD", groups: &[], class: 'W', muts: 0 },
    Meta { text: "((&A,(Without<&E>,&D)),Without<(&B,&C)>)", types: "ABCDE", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(&A,Without<(&A,Without<&B>)>)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(Without<(&A,Without<(&A,Without<&B>)>)>,&A)", types: "AB", groups: &[], class: 'W', muts: 0 },
    Meta { text: "(NonOwning<&A,&B>,Without<NonOwning<&B,&C>>)", types: "ABC", groups: &[('N','A','B'), ('N','B','C')], class: 'W', muts: 0 },
    Meta { text: "(Without<FullOwning<&A,&B>>,NonOwning<&A,&C>)", types: "ABC", groups: &[('N','A','C'), ('F','A','B')], class: 'W', muts: 0 },
    Meta { text: "(PartialOwning<&A,&B>,Without<(&A,Without<&C>)>)", types: "ABC", groups: &[('P','A','B')], class: 'W', muts: 0 },
];
