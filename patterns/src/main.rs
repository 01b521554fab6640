// Written by gen.py: every pattern E bbb b*{n|p}*, one arm per line.
use libmbus_macros::vif;
#[rustfmt::skip]
fn hit(p: usize, v: u8) -> bool {
	match p {
		0 => matches!(v, vif!(E000 nnnn)),
		1 => matches!(v, vif!(E000 nnnp)),
		2 => matches!(v, vif!(E000 nnpn)),
		3 => matches!(v, vif!(E000 nnpp)),
		4 => matches!(v, vif!(E000 npnn)),
		5 => matches!(v, vif!(E000 npnp)),
		6 => matches!(v, vif!(E000 nppn)),
		7 => matches!(v, vif!(E000 nppp)),
		8 => matches!(v, vif!(E000 pnnn)),
		9 => matches!(v, vif!(E000 pnnp)),
		10 => matches!(v, vif!(E000 pnpn)),
		11 => matches!(v, vif!(E000 pnpp)),
		12 => matches!(v, vif!(E000 ppnn)),
		13 => matches!(v, vif!(E000 ppnp)),
		14 => matches!(v, vif!(E000 pppn)),
		15 => matches!(v, vif!(E000 pppp)),
		16 => matches!(v, vif!(E000 0nnn)),
		17 => matches!(v, vif!(E000 0nnp)),
		18 => matches!(v, vif!(E000 0npn)),
		19 => matches!(v, vif!(E000 0npp)),
		20 => matches!(v, vif!(E000 0pnn)),
		21 => matches!(v, vif!(E000 0pnp)),
		22 => matches!(v, vif!(E000 0ppn)),
		23 => matches!(v, vif!(E000 0ppp)),
		24 => matches!(v, vif!(E000 1nnn)),
		25 => matches!(v, vif!(E000 1nnp)),
		26 => matches!(v, vif!(E000 1npn)),
		27 => matches!(v, vif!(E000 1npp)),
		28 => matches!(v, vif!(E000 1pnn)),
		29 => matches!(v, vif!(E000 1pnp)),
		30 => matches!(v, vif!(E000 1ppn)),
		31 => matches!(v, vif!(E000 1ppp)),
		32 => matches!(v, vif!(E000 00nn)),
		33 => matches!(v, vif!(E000 00np)),
		34 => matches!(v, vif!(E000 00pn)),
		35 => matches!(v, vif!(E000 00pp)),
		36 => matches!(v, vif!(E000 01nn)),
		37 => matches!(v, vif!(E000 01np)),
		38 => matches!(v, vif!(E000 01pn)),
		39 => matches!(v, vif!(E000 01pp)),
		40 => matches!(v, vif!(E000 10nn)),
		41 => matches!(v, vif!(E000 10np)),
		42 => matches!(v, vif!(E000 10pn)),
		43 => matches!(v, vif!(E000 10pp)),
		44 => matches!(v, vif!(E000 11nn)),
		45 => matches!(v, vif!(E000 11np)),
		46 => matches!(v, vif!(E000 11pn)),
		47 => matches!(v, vif!(E000 11pp)),
		48 => matches!(v, vif!(E000 000n)),
		49 => matches!(v, vif!(E000 000p)),
		50 => matches!(v, vif!(E000 001n)),
		51 => matches!(v, vif!(E000 001p)),
		52 => matches!(v, vif!(E000 010n)),
		53 => matches!(v, vif!(E000 010p)),
		54 => matches!(v, vif!(E000 011n)),
		55 => matches!(v, vif!(E000 011p)),
		56 => matches!(v, vif!(E000 100n)),
		57 => matches!(v, vif!(E000 100p)),
		58 => matches!(v, vif!(E000 101n)),
		59 => matches!(v, vif!(E000 101p)),
		60 => matches!(v, vif!(E000 110n)),
		61 => matches!(v, vif!(E000 110p)),
		62 => matches!(v, vif!(E000 111n)),
		63 => matches!(v, vif!(E000 111p)),
		64 => matches!(v, vif!(E000 0000)),
		65 => matches!(v, vif!(E000 0001)),
		66 => matches!(v, vif!(E000 0010)),
		67 => matches!(v, vif!(E000 0011)),
		68 => matches!(v, vif!(E000 0100)),
		69 => matches!(v, vif!(E000 0101)),
		70 => matches!(v, vif!(E000 0110)),
		71 => matches!(v, vif!(E000 0111)),
		72 => matches!(v, vif!(E000 1000)),
		73 => matches!(v, vif!(E000 1001)),
		74 => matches!(v, vif!(E000 1010)),
		75 => matches!(v, vif!(E000 1011)),
		76 => matches!(v, vif!(E000 1100)),
		77 => matches!(v, vif!(E000 1101)),
		78 => matches!(v, vif!(E000 1110)),
		79 => matches!(v, vif!(E000 1111)),
		80 => matches!(v, vif!(E001 nnnn)),
		81 => matches!(v, vif!(E001 nnnp)),
		82 => matches!(v, vif!(E001 nnpn)),
		83 => matches!(v, vif!(E001 nnpp)),
		84 => matches!(v, vif!(E001 npnn)),
		85 => matches!(v, vif!(E001 npnp)),
		86 => matches!(v, vif!(E001 nppn)),
		87 => matches!(v, vif!(E001 nppp)),
		88 => matches!(v, vif!(E001 pnnn)),
		89 => matches!(v, vif!(E001 pnnp)),
		90 => matches!(v, vif!(E001 pnpn)),
		91 => matches!(v, vif!(E001 pnpp)),
		92 => matches!(v, vif!(E001 ppnn)),
		93 => matches!(v, vif!(E001 ppnp)),
		94 => matches!(v, vif!(E001 pppn)),
		95 => matches!(v, vif!(E001 pppp)),
		96 => matches!(v, vif!(E001 0nnn)),
		97 => matches!(v, vif!(E001 0nnp)),
		98 => matches!(v, vif!(E001 0npn)),
		99 => matches!(v, vif!(E001 0npp)),
		100 => matches!(v, vif!(E001 0pnn)),
		101 => matches!(v, vif!(E001 0pnp)),
		102 => matches!(v, vif!(E001 0ppn)),
		103 => matches!(v, vif!(E001 0ppp)),
		104 => matches!(v, vif!(E001 1nnn)),
		105 => matches!(v, vif!(E001 1nnp)),
		106 => matches!(v, vif!(E001 1npn)),
		107 => matches!(v, vif!(E001 1npp)),
		108 => matches!(v, vif!(E001 1pnn)),
		109 => matches!(v, vif!(E001 1pnp)),
		110 => matches!(v, vif!(E001 1ppn)),
		111 => matches!(v, vif!(E001 1ppp)),
		112 => matches!(v, vif!(E001 00nn)),
		113 => matches!(v, vif!(E001 00np)),
		114 => matches!(v, vif!(E001 00pn)),
		115 => matches!(v, vif!(E001 00pp)),
		116 => matches!(v, vif!(E001 01nn)),
		117 => matches!(v, vif!(E001 01np)),
		118 => matches!(v, vif!(E001 01pn)),
		119 => matches!(v, vif!(E001 01pp)),
		120 => matches!(v, vif!(E001 10nn)),
		121 => matches!(v, vif!(E001 10np)),
		122 => matches!(v, vif!(E001 10pn)),
		123 => matches!(v, vif!(E001 10pp)),
		124 => matches!(v, vif!(E001 11nn)),
		125 => matches!(v, vif!(E001 11np)),
		126 => matches!(v, vif!(E001 11pn)),
		127 => matches!(v, vif!(E001 11pp)),
		128 => matches!(v, vif!(E001 000n)),
		129 => matches!(v, vif!(E001 000p)),
		130 => matches!(v, vif!(E001 001n)),
		131 => matches!(v, vif!(E001 001p)),
		132 => matches!(v, vif!(E001 010n)),
		133 => matches!(v, vif!(E001 010p)),
		134 => matches!(v, vif!(E001 011n)),
		135 => matches!(v, vif!(E001 011p)),
		136 => matches!(v, vif!(E001 100n)),
		137 => matches!(v, vif!(E001 100p)),
		138 => matches!(v, vif!(E001 101n)),
		139 => matches!(v, vif!(E001 101p)),
		140 => matches!(v, vif!(E001 110n)),
		141 => matches!(v, vif!(E001 110p)),
		142 => matches!(v, vif!(E001 111n)),
		143 => matches!(v, vif!(E001 111p)),
		144 => matches!(v, vif!(E001 0000)),
		145 => matches!(v, vif!(E001 0001)),
		146 => matches!(v, vif!(E001 0010)),
		147 => matches!(v, vif!(E001 0011)),
		148 => matches!(v, vif!(E001 0100)),
		149 => matches!(v, vif!(E001 0101)),
		150 => matches!(v, vif!(E001 0110)),
		151 => matches!(v, vif!(E001 0111)),
		152 => matches!(v, vif!(E001 1000)),
		153 => matches!(v, vif!(E001 1001)),
		154 => matches!(v, vif!(E001 1010)),
		155 => matches!(v, vif!(E001 1011)),
		156 => matches!(v, vif!(E001 1100)),
		157 => matches!(v, vif!(E001 1101)),
		158 => matches!(v, vif!(E001 1110)),
		159 => matches!(v, vif!(E001 1111)),
		160 => matches!(v, vif!(E010 nnnn)),
		161 => matches!(v, vif!(E010 nnnp)),
		162 => matches!(v, vif!(E010 nnpn)),
		163 => matches!(v, vif!(E010 nnpp)),
		164 => matches!(v, vif!(E010 npnn)),
		165 => matches!(v, vif!(E010 npnp)),
		166 => matches!(v, vif!(E010 nppn)),
		167 => matches!(v, vif!(E010 nppp)),
		168 => matches!(v, vif!(E010 pnnn)),
		169 => matches!(v, vif!(E010 pnnp)),
		170 => matches!(v, vif!(E010 pnpn)),
		171 => matches!(v, vif!(E010 pnpp)),
		172 => matches!(v, vif!(E010 ppnn)),
		173 => matches!(v, vif!(E010 ppnp)),
		174 => matches!(v, vif!(E010 pppn)),
		175 => matches!(v, vif!(E010 pppp)),
		176 => matches!(v, vif!(E010 0nnn)),
		177 => matches!(v, vif!(E010 0nnp)),
		178 => matches!(v, vif!(E010 0npn)),
		179 => matches!(v, vif!(E010 0npp)),
		180 => matches!(v, vif!(E010 0pnn)),
		181 => matches!(v, vif!(E010 0pnp)),
		182 => matches!(v, vif!(E010 0ppn)),
		183 => matches!(v, vif!(E010 0ppp)),
		184 => matches!(v, vif!(E010 1nnn)),
		185 => matches!(v, vif!(E010 1nnp)),
		186 => matches!(v, vif!(E010 1npn)),
		187 => matches!(v, vif!(E010 1npp)),
		188 => matches!(v, vif!(E010 1pnn)),
		189 => matches!(v, vif!(E010 1pnp)),
		190 => matches!(v, vif!(E010 1ppn)),
		191 => matches!(v, vif!(E010 1ppp)),
		192 => matches!(v, vif!(E010 00nn)),
		193 => matches!(v, vif!(E010 00np)),
		194 => matches!(v, vif!(E010 00pn)),
		195 => matches!(v, vif!(E010 00pp)),
		196 => matches!(v, vif!(E010 01nn)),
		197 => matches!(v, vif!(E010 01np)),
		198 => matches!(v, vif!(E010 01pn)),
		199 => matches!(v, vif!(E010 01pp)),
		200 => matches!(v, vif!(E010 10nn)),
		201 => matches!(v, vif!(E010 10np)),
		202 => matches!(v, vif!(E010 10pn)),
		203 => matches!(v, vif!(E010 10pp)),
		204 => matches!(v, vif!(E010 11nn)),
		205 => matches!(v, vif!(E010 11np)),
		206 => matches!(v, vif!(E010 11pn)),
		207 => matches!(v, vif!(E010 11pp)),
		208 => matches!(v, vif!(E010 000n)),
		209 => matches!(v, vif!(E010 000p)),
		210 => matches!(v, vif!(E010 001n)),
		211 => matches!(v, vif!(E010 001p)),
		212 => matches!(v, vif!(E010 010n)),
		213 => matches!(v, vif!(E010 010p)),
		214 => matches!(v, vif!(E010 011n)),
		215 => matches!(v, vif!(E010 011p)),
		216 => matches!(v, vif!(E010 100n)),
		217 => matches!(v, vif!(E010 100p)),
		218 => matches!(v, vif!(E010 101n)),
		219 => matches!(v, vif!(E010 101p)),
		220 => matches!(v, vif!(E010 110n)),
		221 => matches!(v, vif!(E010 110p)),
		222 => matches!(v, vif!(E010 111n)),
		223 => matches!(v, vif!(E010 111p)),
		224 => matches!(v, vif!(E010 0000)),
		225 => matches!(v, vif!(E010 0001)),
		226 => matches!(v, vif!(E010 0010)),
		227 => matches!(v, vif!(E010 0011)),
		228 => matches!(v, vif!(E010 0100)),
		229 => matches!(v, vif!(E010 0101)),
		230 => matches!(v, vif!(E010 0110)),
		231 => matches!(v, vif!(E010 0111)),
		232 => matches!(v, vif!(E010 1000)),
		233 => matches!(v, vif!(E010 1001)),
		234 => matches!(v, vif!(E010 1010)),
		235 => matches!(v, vif!(E010 1011)),
		236 => matches!(v, vif!(E010 1100)),
		237 => matches!(v, vif!(E010 1101)),
		238 => matches!(v, vif!(E010 1110)),
		239 => matches!(v, vif!(E010 1111)),
		240 => matches!(v, vif!(E011 nnnn)),
		241 => matches!(v, vif!(E011 nnnp)),
		242 => matches!(v, vif!(E011 nnpn)),
		243 => matches!(v, vif!(E011 nnpp)),
		244 => matches!(v, vif!(E011 npnn)),
		245 => matches!(v, vif!(E011 npnp)),
		246 => matches!(v, vif!(E011 nppn)),
		247 => matches!(v, vif!(E011 nppp)),
		248 => matches!(v, vif!(E011 pnnn)),
		249 => matches!(v, vif!(E011 pnnp)),
		250 => matches!(v, vif!(E011 pnpn)),
		251 => matches!(v, vif!(E011 pnpp)),
		252 => matches!(v, vif!(E011 ppnn)),
		253 => matches!(v, vif!(E011 ppnp)),
		254 => matches!(v, vif!(E011 pppn)),
		255 => matches!(v, vif!(E011 pppp)),
		256 => matches!(v, vif!(E011 0nnn)),
		257 => matches!(v, vif!(E011 0nnp)),
		258 => matches!(v, vif!(E011 0npn)),
		259 => matches!(v, vif!(E011 0npp)),
		260 => matches!(v, vif!(E011 0pnn)),
		261 => matches!(v, vif!(E011 0pnp)),
		262 => matches!(v, vif!(E011 0ppn)),
		263 => matches!(v, vif!(E011 0ppp)),
		264 => matches!(v, vif!(E011 1nnn)),
		265 => matches!(v, vif!(E011 1nnp)),
		266 => matches!(v, vif!(E011 1npn)),
		267 => matches!(v, vif!(E011 1npp)),
		268 => matches!(v, vif!(E011 1pnn)),
		269 => matches!(v, vif!(E011 1pnp)),
		270 => matches!(v, vif!(E011 1ppn)),
		271 => matches!(v, vif!(E011 1ppp)),
		272 => matches!(v, vif!(E011 00nn)),
		273 => matches!(v, vif!(E011 00np)),
		274 => matches!(v, vif!(E011 00pn)),
		275 => matches!(v, vif!(E011 00pp)),
		276 => matches!(v, vif!(E011 01nn)),
		277 => matches!(v, vif!(E011 01np)),
		278 => matches!(v, vif!(E011 01pn)),
		279 => matches!(v, vif!(E011 01pp)),
		280 => matches!(v, vif!(E011 10nn)),
		281 => matches!(v, vif!(E011 10np)),
		282 => matches!(v, vif!(E011 10pn)),
		283 => matches!(v, vif!(E011 10pp)),
		284 => matches!(v, vif!(E011 11nn)),
		285 => matches!(v, vif!(E011 11np)),
		286 => matches!(v, vif!(E011 11pn)),
		287 => matches!(v, vif!(E011 11pp)),
		288 => matches!(v, vif!(E011 000n)),
		289 => matches!(v, vif!(E011 000p)),
		290 => matches!(v, vif!(E011 001n)),
		291 => matches!(v, vif!(E011 001p)),
		292 => matches!(v, vif!(E011 010n)),
		293 => matches!(v, vif!(E011 010p)),
		294 => matches!(v, vif!(E011 011n)),
		295 => matches!(v, vif!(E011 011p)),
		296 => matches!(v, vif!(E011 100n)),
		297 => matches!(v, vif!(E011 100p)),
		298 => matches!(v, vif!(E011 101n)),
		299 => matches!(v, vif!(E011 101p)),
		300 => matches!(v, vif!(E011 110n)),
		301 => matches!(v, vif!(E011 110p)),
		302 => matches!(v, vif!(E011 111n)),
		303 => matches!(v, vif!(E011 111p)),
		304 => matches!(v, vif!(E011 0000)),
		305 => matches!(v, vif!(E011 0001)),
		306 => matches!(v, vif!(E011 0010)),
		307 => matches!(v, vif!(E011 0011)),
		308 => matches!(v, vif!(E011 0100)),
		309 => matches!(v, vif!(E011 0101)),
		310 => matches!(v, vif!(E011 0110)),
		311 => matches!(v, vif!(E011 0111)),
		312 => matches!(v, vif!(E011 1000)),
		313 => matches!(v, vif!(E011 1001)),
		314 => matches!(v, vif!(E011 1010)),
		315 => matches!(v, vif!(E011 1011)),
		316 => matches!(v, vif!(E011 1100)),
		317 => matches!(v, vif!(E011 1101)),
		318 => matches!(v, vif!(E011 1110)),
		319 => matches!(v, vif!(E011 1111)),
		320 => matches!(v, vif!(E100 nnnn)),
		321 => matches!(v, vif!(E100 nnnp)),
		322 => matches!(v, vif!(E100 nnpn)),
		323 => matches!(v, vif!(E100 nnpp)),
		324 => matches!(v, vif!(E100 npnn)),
		325 => matches!(v, vif!(E100 npnp)),
		326 => matches!(v, vif!(E100 nppn)),
		327 => matches!(v, vif!(E100 nppp)),
		328 => matches!(v, vif!(E100 pnnn)),
		329 => matches!(v, vif!(E100 pnnp)),
		330 => matches!(v, vif!(E100 pnpn)),
		331 => matches!(v, vif!(E100 pnpp)),
		332 => matches!(v, vif!(E100 ppnn)),
		333 => matches!(v, vif!(E100 ppnp)),
		334 => matches!(v, vif!(E100 pppn)),
		335 => matches!(v, vif!(E100 pppp)),
		336 => matches!(v, vif!(E100 0nnn)),
		337 => matches!(v, vif!(E100 0nnp)),
		338 => matches!(v, vif!(E100 0npn)),
		339 => matches!(v, vif!(E100 0npp)),
		340 => matches!(v, vif!(E100 0pnn)),
		341 => matches!(v, vif!(E100 0pnp)),
		342 => matches!(v, vif!(E100 0ppn)),
		343 => matches!(v, vif!(E100 0ppp)),
		344 => matches!(v, vif!(E100 1nnn)),
		345 => matches!(v, vif!(E100 1nnp)),
		346 => matches!(v, vif!(E100 1npn)),
		347 => matches!(v, vif!(E100 1npp)),
		348 => matches!(v, vif!(E100 1pnn)),
		349 => matches!(v, vif!(E100 1pnp)),
		350 => matches!(v, vif!(E100 1ppn)),
		351 => matches!(v, vif!(E100 1ppp)),
		352 => matches!(v, vif!(E100 00nn)),
		353 => matches!(v, vif!(E100 00np)),
		354 => matches!(v, vif!(E100 00pn)),
		355 => matches!(v, vif!(E100 00pp)),
		356 => matches!(v, vif!(E100 01nn)),
		357 => matches!(v, vif!(E100 01np)),
		358 => matches!(v, vif!(E100 01pn)),
		359 => matches!(v, vif!(E100 01pp)),
		360 => matches!(v, vif!(E100 10nn)),
		361 => matches!(v, vif!(E100 10np)),
		362 => matches!(v, vif!(E100 10pn)),
		363 => matches!(v, vif!(E100 10pp)),
		364 => matches!(v, vif!(E100 11nn)),
		365 => matches!(v, vif!(E100 11np)),
		366 => matches!(v, vif!(E100 11pn)),
		367 => matches!(v, vif!(E100 11pp)),
		368 => matches!(v, vif!(E100 000n)),
		369 => matches!(v, vif!(E100 000p)),
		370 => matches!(v, vif!(E100 001n)),
		371 => matches!(v, vif!(E100 001p)),
		372 => matches!(v, vif!(E100 010n)),
		373 => matches!(v, vif!(E100 010p)),
		374 => matches!(v, vif!(E100 011n)),
		375 => matches!(v, vif!(E100 011p)),
		376 => matches!(v, vif!(E100 100n)),
		377 => matches!(v, vif!(E100 100p)),
		378 => matches!(v, vif!(E100 101n)),
		379 => matches!(v, vif!(E100 101p)),
		380 => matches!(v, vif!(E100 110n)),
		381 => matches!(v, vif!(E100 110p)),
		382 => matches!(v, vif!(E100 111n)),
		383 => matches!(v, vif!(E100 111p)),
		384 => matches!(v, vif!(E100 0000)),
		385 => matches!(v, vif!(E100 0001)),
		386 => matches!(v, vif!(E100 0010)),
		387 => matches!(v, vif!(E100 0011)),
		388 => matches!(v, vif!(E100 0100)),
		389 => matches!(v, vif!(E100 0101)),
		390 => matches!(v, vif!(E100 0110)),
		391 => matches!(v, vif!(E100 0111)),
		392 => matches!(v, vif!(E100 1000)),
		393 => matches!(v, vif!(E100 1001)),
		394 => matches!(v, vif!(E100 1010)),
		395 => matches!(v, vif!(E100 1011)),
		396 => matches!(v, vif!(E100 1100)),
		397 => matches!(v, vif!(E100 1101)),
		398 => matches!(v, vif!(E100 1110)),
		399 => matches!(v, vif!(E100 1111)),
		400 => matches!(v, vif!(E101 nnnn)),
		401 => matches!(v, vif!(E101 nnnp)),
		402 => matches!(v, vif!(E101 nnpn)),
		403 => matches!(v, vif!(E101 nnpp)),
		404 => matches!(v, vif!(E101 npnn)),
		405 => matches!(v, vif!(E101 npnp)),
		406 => matches!(v, vif!(E101 nppn)),
		407 => matches!(v, vif!(E101 nppp)),
		408 => matches!(v, vif!(E101 pnnn)),
		409 => matches!(v, vif!(E101 pnnp)),
		410 => matches!(v, vif!(E101 pnpn)),
		411 => matches!(v, vif!(E101 pnpp)),
		412 => matches!(v, vif!(E101 ppnn)),
		413 => matches!(v, vif!(E101 ppnp)),
		414 => matches!(v, vif!(E101 pppn)),
		415 => matches!(v, vif!(E101 pppp)),
		416 => matches!(v, vif!(E101 0nnn)),
		417 => matches!(v, vif!(E101 0nnp)),
		418 => matches!(v, vif!(E101 0npn)),
		419 => matches!(v, vif!(E101 0npp)),
		420 => matches!(v, vif!(E101 0pnn)),
		421 => matches!(v, vif!(E101 0pnp)),
		422 => matches!(v, vif!(E101 0ppn)),
		423 => matches!(v, vif!(E101 0ppp)),
		424 => matches!(v, vif!(E101 1nnn)),
		425 => matches!(v, vif!(E101 1nnp)),
		426 => matches!(v, vif!(E101 1npn)),
		427 => matches!(v, vif!(E101 1npp)),
		428 => matches!(v, vif!(E101 1pnn)),
		429 => matches!(v, vif!(E101 1pnp)),
		430 => matches!(v, vif!(E101 1ppn)),
		431 => matches!(v, vif!(E101 1ppp)),
		432 => matches!(v, vif!(E101 00nn)),
		433 => matches!(v, vif!(E101 00np)),
		434 => matches!(v, vif!(E101 00pn)),
		435 => matches!(v, vif!(E101 00pp)),
		436 => matches!(v, vif!(E101 01nn)),
		437 => matches!(v, vif!(E101 01np)),
		438 => matches!(v, vif!(E101 01pn)),
		439 => matches!(v, vif!(E101 01pp)),
		440 => matches!(v, vif!(E101 10nn)),
		441 => matches!(v, vif!(E101 10np)),
		442 => matches!(v, vif!(E101 10pn)),
		443 => matches!(v, vif!(E101 10pp)),
		444 => matches!(v, vif!(E101 11nn)),
		445 => matches!(v, vif!(E101 11np)),
		446 => matches!(v, vif!(E101 11pn)),
		447 => matches!(v, vif!(E101 11pp)),
		448 => matches!(v, vif!(E101 000n)),
		449 => matches!(v, vif!(E101 000p)),
		450 => matches!(v, vif!(E101 001n)),
		451 => matches!(v, vif!(E101 001p)),
		452 => matches!(v, vif!(E101 010n)),
		453 => matches!(v, vif!(E101 010p)),
		454 => matches!(v, vif!(E101 011n)),
		455 => matches!(v, vif!(E101 011p)),
		456 => matches!(v, vif!(E101 100n)),
		457 => matches!(v, vif!(E101 100p)),
		458 => matches!(v, vif!(E101 101n)),
		459 => matches!(v, vif!(E101 101p)),
		460 => matches!(v, vif!(E101 110n)),
		461 => matches!(v, vif!(E101 110p)),
		462 => matches!(v, vif!(E101 111n)),
		463 => matches!(v, vif!(E101 111p)),
		464 => matches!(v, vif!(E101 0000)),
		465 => matches!(v, vif!(E101 0001)),
		466 => matches!(v, vif!(E101 0010)),
		467 => matches!(v, vif!(E101 0011)),
		468 => matches!(v, vif!(E101 0100)),
		469 => matches!(v, vif!(E101 0101)),
		470 => matches!(v, vif!(E101 0110)),
		471 => matches!(v, vif!(E101 0111)),
		472 => matches!(v, vif!(E101 1000)),
		473 => matches!(v, vif!(E101 1001)),
		474 => matches!(v, vif!(E101 1010)),
		475 => matches!(v, vif!(E101 1011)),
		476 => matches!(v, vif!(E101 1100)),
		477 => matches!(v, vif!(E101 1101)),
		478 => matches!(v, vif!(E101 1110)),
		479 => matches!(v, vif!(E101 1111)),
		480 => matches!(v, vif!(E110 nnnn)),
		481 => matches!(v, vif!(E110 nnnp)),
		482 => matches!(v, vif!(E110 nnpn)),
		483 => matches!(v, vif!(E110 nnpp)),
		484 => matches!(v, vif!(E110 npnn)),
		485 => matches!(v, vif!(E110 npnp)),
		486 => matches!(v, vif!(E110 nppn)),
		487 => matches!(v, vif!(E110 nppp)),
		488 => matches!(v, vif!(E110 pnnn)),
		489 => matches!(v, vif!(E110 pnnp)),
		490 => matches!(v, vif!(E110 pnpn)),
		491 => matches!(v, vif!(E110 pnpp)),
		492 => matches!(v, vif!(E110 ppnn)),
		493 => matches!(v, vif!(E110 ppnp)),
		494 => matches!(v, vif!(E110 pppn)),
		495 => matches!(v, vif!(E110 pppp)),
		496 => matches!(v, vif!(E110 0nnn)),
		497 => matches!(v, vif!(E110 0nnp)),
		498 => matches!(v, vif!(E110 0npn)),
		499 => matches!(v, vif!(E110 0npp)),
		500 => matches!(v, vif!(E110 0pnn)),
		501 => matches!(v, vif!(E110 0pnp)),
		502 => matches!(v, vif!(E110 0ppn)),
		503 => matches!(v, vif!(E110 0ppp)),
		504 => matches!(v, vif!(E110 1nnn)),
		505 => matches!(v, vif!(E110 1nnp)),
		506 => matches!(v, vif!(E110 1npn)),
		507 => matches!(v, vif!(E110 1npp)),
		508 => matches!(v, vif!(E110 1pnn)),
		509 => matches!(v, vif!(E110 1pnp)),
		510 => matches!(v, vif!(E110 1ppn)),
		511 => matches!(v, vif!(E110 1ppp)),
		512 => matches!(v, vif!(E110 00nn)),
		513 => matches!(v, vif!(E110 00np)),
		514 => matches!(v, vif!(E110 00pn)),
		515 => matches!(v, vif!(E110 00pp)),
		516 => matches!(v, vif!(E110 01nn)),
		517 => matches!(v, vif!(E110 01np)),
		518 => matches!(v, vif!(E110 01pn)),
		519 => matches!(v, vif!(E110 01pp)),
		520 => matches!(v, vif!(E110 10nn)),
		521 => matches!(v, vif!(E110 10np)),
		522 => matches!(v, vif!(E110 10pn)),
		523 => matches!(v, vif!(E110 10pp)),
		524 => matches!(v, vif!(E110 11nn)),
		525 => matches!(v, vif!(E110 11np)),
		526 => matches!(v, vif!(E110 11pn)),
		527 => matches!(v, vif!(E110 11pp)),
		528 => matches!(v, vif!(E110 000n)),
		529 => matches!(v, vif!(E110 000p)),
		530 => matches!(v, vif!(E110 001n)),
		531 => matches!(v, vif!(E110 001p)),
		532 => matches!(v, vif!(E110 010n)),
		533 => matches!(v, vif!(E110 010p)),
		534 => matches!(v, vif!(E110 011n)),
		535 => matches!(v, vif!(E110 011p)),
		536 => matches!(v, vif!(E110 100n)),
		537 => matches!(v, vif!(E110 100p)),
		538 => matches!(v, vif!(E110 101n)),
		539 => matches!(v, vif!(E110 101p)),
		540 => matches!(v, vif!(E110 110n)),
		541 => matches!(v, vif!(E110 110p)),
		542 => matches!(v, vif!(E110 111n)),
		543 => matches!(v, vif!(E110 111p)),
		544 => matches!(v, vif!(E110 0000)),
		545 => matches!(v, vif!(E110 0001)),
		546 => matches!(v, vif!(E110 0010)),
		547 => matches!(v, vif!(E110 0011)),
		548 => matches!(v, vif!(E110 0100)),
		549 => matches!(v, vif!(E110 0101)),
		550 => matches!(v, vif!(E110 0110)),
		551 => matches!(v, vif!(E110 0111)),
		552 => matches!(v, vif!(E110 1000)),
		553 => matches!(v, vif!(E110 1001)),
		554 => matches!(v, vif!(E110 1010)),
		555 => matches!(v, vif!(E110 1011)),
		556 => matches!(v, vif!(E110 1100)),
		557 => matches!(v, vif!(E110 1101)),
		558 => matches!(v, vif!(E110 1110)),
		559 => matches!(v, vif!(E110 1111)),
		560 => matches!(v, vif!(E111 nnnn)),
		561 => matches!(v, vif!(E111 nnnp)),
		562 => matches!(v, vif!(E111 nnpn)),
		563 => matches!(v, vif!(E111 nnpp)),
		564 => matches!(v, vif!(E111 npnn)),
		565 => matches!(v, vif!(E111 npnp)),
		566 => matches!(v, vif!(E111 nppn)),
		567 => matches!(v, vif!(E111 nppp)),
		568 => matches!(v, vif!(E111 pnnn)),
		569 => matches!(v, vif!(E111 pnnp)),
		570 => matches!(v, vif!(E111 pnpn)),
		571 => matches!(v, vif!(E111 pnpp)),
		572 => matches!(v, vif!(E111 ppnn)),
		573 => matches!(v, vif!(E111 ppnp)),
		574 => matches!(v, vif!(E111 pppn)),
		575 => matches!(v, vif!(E111 pppp)),
		576 => matches!(v, vif!(E111 0nnn)),
		577 => matches!(v, vif!(E111 0nnp)),
		578 => matches!(v, vif!(E111 0npn)),
		579 => matches!(v, vif!(E111 0npp)),
		580 => matches!(v, vif!(E111 0pnn)),
		581 => matches!(v, vif!(E111 0pnp)),
		582 => matches!(v, vif!(E111 0ppn)),
		583 => matches!(v, vif!(E111 0ppp)),
		584 => matches!(v, vif!(E111 1nnn)),
		585 => matches!(v, vif!(E111 1nnp)),
		586 => matches!(v, vif!(E111 1npn)),
		587 => matches!(v, vif!(E111 1npp)),
		588 => matches!(v, vif!(E111 1pnn)),
		589 => matches!(v, vif!(E111 1pnp)),
		590 => matches!(v, vif!(E111 1ppn)),
		591 => matches!(v, vif!(E111 1ppp)),
		592 => matches!(v, vif!(E111 00nn)),
		593 => matches!(v, vif!(E111 00np)),
		594 => matches!(v, vif!(E111 00pn)),
		595 => matches!(v, vif!(E111 00pp)),
		596 => matches!(v, vif!(E111 01nn)),
		597 => matches!(v, vif!(E111 01np)),
		598 => matches!(v, vif!(E111 01pn)),
		599 => matches!(v, vif!(E111 01pp)),
		600 => matches!(v, vif!(E111 10nn)),
		601 => matches!(v, vif!(E111 10np)),
		602 => matches!(v, vif!(E111 10pn)),
		603 => matches!(v, vif!(E111 10pp)),
		604 => matches!(v, vif!(E111 11nn)),
		605 => matches!(v, vif!(E111 11np)),
		606 => matches!(v, vif!(E111 11pn)),
		607 => matches!(v, vif!(E111 11pp)),
		608 => matches!(v, vif!(E111 000n)),
		609 => matches!(v, vif!(E111 000p)),
		610 => matches!(v, vif!(E111 001n)),
		611 => matches!(v, vif!(E111 001p)),
		612 => matches!(v, vif!(E111 010n)),
		613 => matches!(v, vif!(E111 010p)),
		614 => matches!(v, vif!(E111 011n)),
		615 => matches!(v, vif!(E111 011p)),
		616 => matches!(v, vif!(E111 100n)),
		617 => matches!(v, vif!(E111 100p)),
		618 => matches!(v, vif!(E111 101n)),
		619 => matches!(v, vif!(E111 101p)),
		620 => matches!(v, vif!(E111 110n)),
		621 => matches!(v, vif!(E111 110p)),
		622 => matches!(v, vif!(E111 111n)),
		623 => matches!(v, vif!(E111 111p)),
		624 => matches!(v, vif!(E111 0000)),
		625 => matches!(v, vif!(E111 0001)),
		626 => matches!(v, vif!(E111 0010)),
		627 => matches!(v, vif!(E111 0011)),
		628 => matches!(v, vif!(E111 0100)),
		629 => matches!(v, vif!(E111 0101)),
		630 => matches!(v, vif!(E111 0110)),
		631 => matches!(v, vif!(E111 0111)),
		632 => matches!(v, vif!(E111 1000)),
		633 => matches!(v, vif!(E111 1001)),
		634 => matches!(v, vif!(E111 1010)),
		635 => matches!(v, vif!(E111 1011)),
		636 => matches!(v, vif!(E111 1100)),
		637 => matches!(v, vif!(E111 1101)),
		638 => matches!(v, vif!(E111 1110)),
		639 => matches!(v, vif!(E111 1111)),
		_ => unreachable!(),
	}
}
#[rustfmt::skip]
const PATS: &[&str] = &[
	"E000 nnnn",
	"E000 nnnp",
	"E000 nnpn",
	"E000 nnpp",
	"E000 npnn",
	"E000 npnp",
	"E000 nppn",
	"E000 nppp",
	"E000 pnnn",
	"E000 pnnp",
	"E000 pnpn",
	"E000 pnpp",
	"E000 ppnn",
	"E000 ppnp",
	"E000 pppn",
	"E000 pppp",
	"E000 0nnn",
	"E000 0nnp",
	"E000 0npn",
	"E000 0npp",
	"E000 0pnn",
	"E000 0pnp",
	"E000 0ppn",
	"E000 0ppp",
	"E000 1nnn",
	"E000 1nnp",
	"E000 1npn",
	"E000 1npp",
	"E000 1pnn",
	"E000 1pnp",
	"E000 1ppn",
	"E000 1ppp",
	"E000 00nn",
	"E000 00np",
	"E000 00pn",
	"E000 00pp",
	"E000 01nn",
	"E000 01np",
	"E000 01pn",
	"E000 01pp",
	"E000 10nn",
	"E000 10np",
	"E000 10pn",
	"E000 10pp",
	"E000 11nn",
	"E000 11np",
	"E000 11pn",
	"E000 11pp",
	"E000 000n",
	"E000 000p",
	"E000 001n",
	"E000 001p",
	"E000 010n",
	"E000 010p",
	"E000 011n",
	"E000 011p",
	"E000 100n",
	"E000 100p",
	"E000 101n",
	"E000 101p",
	"E000 110n",
	"E000 110p",
	"E000 111n",
	"E000 111p",
	"E000 0000",
	"E000 0001",
	"E000 0010",
	"E000 0011",
	"E000 0100",
	"E000 0101",
	"E000 0110",
	"E000 0111",
	"E000 1000",
	"E000 1001",
	"E000 1010",
	"E000 1011",
	"E000 1100",
	"E000 1101",
	"E000 1110",
	"E000 1111",
	"E001 nnnn",
	"E001 nnnp",
	"E001 nnpn",
	"E001 nnpp",
	"E001 npnn",
	"E001 npnp",
	"E001 nppn",
	"E001 nppp",
	"E001 pnnn",
	"E001 pnnp",
	"E001 pnpn",
	"E001 pnpp",
	"E001 ppnn",
	"E001 ppnp",
	"E001 pppn",
	"E001 pppp",
	"E001 0nnn",
	"E001 0nnp",
	"E001 0npn",
	"E001 0npp",
	"E001 0pnn",
	"E001 0pnp",
	"E001 0ppn",
	"E001 0ppp",
	"E001 1nnn",
	"E001 1nnp",
	"E001 1npn",
	"E001 1npp",
	"E001 1pnn",
	"E001 1pnp",
	"E001 1ppn",
	"E001 1ppp",
	"E001 00nn",
	"E001 00np",
	"E001 00pn",
	"E001 00pp",
	"E001 01nn",
	"E001 01np",
	"E001 01pn",
	"E001 01pp",
	"E001 10nn",
	"E001 10np",
	"E001 10pn",
	"E001 10pp",
	"E001 11nn",
	"E001 11np",
	"E001 11pn",
	"E001 11pp",
	"E001 000n",
	"E001 000p",
	"E001 001n",
	"E001 001p",
	"E001 010n",
	"E001 010p",
	"E001 011n",
	"E001 011p",
	"E001 100n",
	"E001 100p",
	"E001 101n",
	"E001 101p",
	"E001 110n",
	"E001 110p",
	"E001 111n",
	"E001 111p",
	"E001 0000",
	"E001 0001",
	"E001 0010",
	"E001 0011",
	"E001 0100",
	"E001 0101",
	"E001 0110",
	"E001 0111",
	"E001 1000",
	"E001 1001",
	"E001 1010",
	"E001 1011",
	"E001 1100",
	"E001 1101",
	"E001 1110",
	"E001 1111",
	"E010 nnnn",
	"E010 nnnp",
	"E010 nnpn",
	"E010 nnpp",
	"E010 npnn",
	"E010 npnp",
	"E010 nppn",
	"E010 nppp",
	"E010 pnnn",
	"E010 pnnp",
	"E010 pnpn",
	"E010 pnpp",
	"E010 ppnn",
	"E010 ppnp",
	"E010 pppn",
	"E010 pppp",
	"E010 0nnn",
	"E010 0nnp",
	"E010 0npn",
	"E010 0npp",
	"E010 0pnn",
	"E010 0pnp",
	"E010 0ppn",
	"E010 0ppp",
	"E010 1nnn",
	"E010 1nnp",
	"E010 1npn",
	"E010 1npp",
	"E010 1pnn",
	"E010 1pnp",
	"E010 1ppn",
	"E010 1ppp",
	"E010 00nn",
	"E010 00np",
	"E010 00pn",
	"E010 00pp",
	"E010 01nn",
	"E010 01np",
	"E010 01pn",
	"E010 01pp",
	"E010 10nn",
	"E010 10np",
	"E010 10pn",
	"E010 10pp",
	"E010 11nn",
	"E010 11np",
	"E010 11pn",
	"E010 11pp",
	"E010 000n",
	"E010 000p",
	"E010 001n",
	"E010 001p",
	"E010 010n",
	"E010 010p",
	"E010 011n",
	"E010 011p",
	"E010 100n",
	"E010 100p",
	"E010 101n",
	"E010 101p",
	"E010 110n",
	"E010 110p",
	"E010 111n",
	"E010 111p",
	"E010 0000",
	"E010 0001",
	"E010 0010",
	"E010 0011",
	"E010 0100",
	"E010 0101",
	"E010 0110",
	"E010 0111",
	"E010 1000",
	"E010 1001",
	"E010 1010",
	"E010 1011",
	"E010 1100",
	"E010 1101",
	"E010 1110",
	"E010 1111",
	"E011 nnnn",
	"E011 nnnp",
	"E011 nnpn",
	"E011 nnpp",
	"E011 npnn",
	"E011 npnp",
	"E011 nppn",
	"E011 nppp",
	"E011 pnnn",
	"E011 pnnp",
	"E011 pnpn",
	"E011 pnpp",
	"E011 ppnn",
	"E011 ppnp",
	"E011 pppn",
	"E011 pppp",
	"E011 0nnn",
	"E011 0nnp",
	"E011 0npn",
	"E011 0npp",
	"E011 0pnn",
	"E011 0pnp",
	"E011 0ppn",
	"E011 0ppp",
	"E011 1nnn",
	"E011 1nnp",
	"E011 1npn",
	"E011 1npp",
	"E011 1pnn",
	"E011 1pnp",
	"E011 1ppn",
	"E011 1ppp",
	"E011 00nn",
	"E011 00np",
	"E011 00pn",
	"E011 00pp",
	"E011 01nn",
	"E011 01np",
	"E011 01pn",
	"E011 01pp",
	"E011 10nn",
	"E011 10np",
	"E011 10pn",
	"E011 10pp",
	"E011 11nn",
	"E011 11np",
	"E011 11pn",
	"E011 11pp",
	"E011 000n",
	"E011 000p",
	"E011 001n",
	"E011 001p",
	"E011 010n",
	"E011 010p",
	"E011 011n",
	"E011 011p",
	"E011 100n",
	"E011 100p",
	"E011 101n",
	"E011 101p",
	"E011 110n",
	"E011 110p",
	"E011 111n",
	"E011 111p",
	"E011 0000",
	"E011 0001",
	"E011 0010",
	"E011 0011",
	"E011 0100",
	"E011 0101",
	"E011 0110",
	"E011 0111",
	"E011 1000",
	"E011 1001",
	"E011 1010",
	"E011 1011",
	"E011 1100",
	"E011 1101",
	"E011 1110",
	"E011 1111",
	"E100 nnnn",
	"E100 nnnp",
	"E100 nnpn",
	"E100 nnpp",
	"E100 npnn",
	"E100 npnp",
	"E100 nppn",
	"E100 nppp",
	"E100 pnnn",
	"E100 pnnp",
	"E100 pnpn",
	"E100 pnpp",
	"E100 ppnn",
	"E100 ppnp",
	"E100 pppn",
	"E100 pppp",
	"E100 0nnn",
	"E100 0nnp",
	"E100 0npn",
	"E100 0npp",
	"E100 0pnn",
	"E100 0pnp",
	"E100 0ppn",
	"E100 0ppp",
	"E100 1nnn",
	"E100 1nnp",
	"E100 1npn",
	"E100 1npp",
	"E100 1pnn",
	"E100 1pnp",
	"E100 1ppn",
	"E100 1ppp",
	"E100 00nn",
	"E100 00np",
	"E100 00pn",
	"E100 00pp",
	"E100 01nn",
	"E100 01np",
	"E100 01pn",
	"E100 01pp",
	"E100 10nn",
	"E100 10np",
	"E100 10pn",
	"E100 10pp",
	"E100 11nn",
	"E100 11np",
	"E100 11pn",
	"E100 11pp",
	"E100 000n",
	"E100 000p",
	"E100 001n",
	"E100 001p",
	"E100 010n",
	"E100 010p",
	"E100 011n",
	"E100 011p",
	"E100 100n",
	"E100 100p",
	"E100 101n",
	"E100 101p",
	"E100 110n",
	"E100 110p",
	"E100 111n",
	"E100 111p",
	"E100 0000",
	"E100 0001",
	"E100 0010",
	"E100 0011",
	"E100 0100",
	"E100 0101",
	"E100 0110",
	"E100 0111",
	"E100 1000",
	"E100 1001",
	"E100 1010",
	"E100 1011",
	"E100 1100",
	"E100 1101",
	"E100 1110",
	"E100 1111",
	"E101 nnnn",
	"E101 nnnp",
	"E101 nnpn",
	"E101 nnpp",
	"E101 npnn",
	"E101 npnp",
	"E101 nppn",
	"E101 nppp",
	"E101 pnnn",
	"E101 pnnp",
	"E101 pnpn",
	"E101 pnpp",
	"E101 ppnn",
	"E101 ppnp",
	"E101 pppn",
	"E101 pppp",
	"E101 0nnn",
	"E101 0nnp",
	"E101 0npn",
	"E101 0npp",
	"E101 0pnn",
	"E101 0pnp",
	"E101 0ppn",
	"E101 0ppp",
	"E101 1nnn",
	"E101 1nnp",
	"E101 1npn",
	"E101 1npp",
	"E101 1pnn",
	"E101 1pnp",
	"E101 1ppn",
	"E101 1ppp",
	"E101 00nn",
	"E101 00np",
	"E101 00pn",
	"E101 00pp",
	"E101 01nn",
	"E101 01np",
	"E101 01pn",
	"E101 01pp",
	"E101 10nn",
	"E101 10np",
	"E101 10pn",
	"E101 10pp",
	"E101 11nn",
	"E101 11np",
	"E101 11pn",
	"E101 11pp",
	"E101 000n",
	"E101 000p",
	"E101 001n",
	"E101 001p",
	"E101 010n",
	"E101 010p",
	"E101 011n",
	"E101 011p",
	"E101 100n",
	"E101 100p",
	"E101 101n",
	"E101 101p",
	"E101 110n",
	"E101 110p",
	"E101 111n",
	"E101 111p",
	"E101 0000",
	"E101 0001",
	"E101 0010",
	"E101 0011",
	"E101 0100",
	"E101 0101",
	"E101 0110",
	"E101 0111",
	"E101 1000",
	"E101 1001",
	"E101 1010",
	"E101 1011",
	"E101 1100",
	"E101 1101",
	"E101 1110",
	"E101 1111",
	"E110 nnnn",
	"E110 nnnp",
	"E110 nnpn",
	"E110 nnpp",
	"E110 npnn",
	"E110 npnp",
	"E110 nppn",
	"E110 nppp",
	"E110 pnnn",
	"E110 pnnp",
	"E110 pnpn",
	"E110 pnpp",
	"E110 ppnn",
	"E110 ppnp",
	"E110 pppn",
	"E110 pppp",
	"E110 0nnn",
	"E110 0nnp",
	"E110 0npn",
	"E110 0npp",
	"E110 0pnn",
	"E110 0pnp",
	"E110 0ppn",
	"E110 0ppp",
	"E110 1nnn",
	"E110 1nnp",
	"E110 1npn",
	"E110 1npp",
	"E110 1pnn",
	"E110 1pnp",
	"E110 1ppn",
	"E110 1ppp",
	"E110 00nn",
	"E110 00np",
	"E110 00pn",
	"E110 00pp",
	"E110 01nn",
	"E110 01np",
	"E110 01pn",
	"E110 01pp",
	"E110 10nn",
	"E110 10np",
	"E110 10pn",
	"E110 10pp",
	"E110 11nn",
	"E110 11np",
	"E110 11pn",
	"E110 11pp",
	"E110 000n",
	"E110 000p",
	"E110 001n",
	"E110 001p",
	"E110 010n",
	"E110 010p",
	"E110 011n",
	"E110 011p",
	"E110 100n",
	"E110 100p",
	"E110 101n",
	"E110 101p",
	"E110 110n",
	"E110 110p",
	"E110 111n",
	"E110 111p",
	"E110 0000",
	"E110 0001",
	"E110 0010",
	"E110 0011",
	"E110 0100",
	"E110 0101",
	"E110 0110",
	"E110 0111",
	"E110 1000",
	"E110 1001",
	"E110 1010",
	"E110 1011",
	"E110 1100",
	"E110 1101",
	"E110 1110",
	"E110 1111",
	"E111 nnnn",
	"E111 nnnp",
	"E111 nnpn",
	"E111 nnpp",
	"E111 npnn",
	"E111 npnp",
	"E111 nppn",
	"E111 nppp",
	"E111 pnnn",
	"E111 pnnp",
	"E111 pnpn",
	"E111 pnpp",
	"E111 ppnn",
	"E111 ppnp",
	"E111 pppn",
	"E111 pppp",
	"E111 0nnn",
	"E111 0nnp",
	"E111 0npn",
	"E111 0npp",
	"E111 0pnn",
	"E111 0pnp",
	"E111 0ppn",
	"E111 0ppp",
	"E111 1nnn",
	"E111 1nnp",
	"E111 1npn",
	"E111 1npp",
	"E111 1pnn",
	"E111 1pnp",
	"E111 1ppn",
	"E111 1ppp",
	"E111 00nn",
	"E111 00np",
	"E111 00pn",
	"E111 00pp",
	"E111 01nn",
	"E111 01np",
	"E111 01pn",
	"E111 01pp",
	"E111 10nn",
	"E111 10np",
	"E111 10pn",
	"E111 10pp",
	"E111 11nn",
	"E111 11np",
	"E111 11pn",
	"E111 11pp",
	"E111 000n",
	"E111 000p",
	"E111 001n",
	"E111 001p",
	"E111 010n",
	"E111 010p",
	"E111 011n",
	"E111 011p",
	"E111 100n",
	"E111 100p",
	"E111 101n",
	"E111 101p",
	"E111 110n",
	"E111 110p",
	"E111 111n",
	"E111 111p",
	"E111 0000",
	"E111 0001",
	"E111 0010",
	"E111 0011",
	"E111 0100",
	"E111 0101",
	"E111 0110",
	"E111 0111",
	"E111 1000",
	"E111 1001",
	"E111 1010",
	"E111 1011",
	"E111 1100",
	"E111 1101",
	"E111 1110",
	"E111 1111",
];
fn main() {
	for (i, p) in PATS.iter().enumerate() {
		let j = |it: &mut dyn Iterator<Item = u8>| it.map(|b| b.to_string()).collect::<Vec<_>>().join(",");
		println!(
			"{{\"i\":{},\"op\":\"pat\",\"a\":[],\"in\":[{}],\"st\":\"ok\",\"rest\":0,\"ev\":[{{\"e\":\"Match\",\"s\":\"\",\"n\":[{}]}}]}}",
			i + 1, j(&mut p.bytes()), j(&mut (0..=255u8).filter(|v| hit(i, *v))),
		);
	}
}
