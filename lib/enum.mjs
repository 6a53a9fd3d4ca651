/** all sequences over `alphabet` of exactly length n */
export function* sequences(alphabet, n) {
	if (n === 0) {
		yield [];
		return;
	}
	const idx = new Array(n).fill(0);
	for (;;) {
		yield idx.map((i) => alphabet[i]);
		let p = n - 1;
		while (p >= 0 && ++idx[p] === alphabet.length) idx[p--] = 0;
		if (p < 0) return;
	}
}
export function* upTo(alphabet, n) {
	for (let i = 0; i <= n; i++) yield* sequences(alphabet, i);
}
/** cartesian product of an object of arrays -> objects */
export function* product(dims) {
	const keys = Object.keys(dims);
	function* go(i, acc) {
		if (i === keys.length) {
			yield { ...acc };
			return;
		}
		for (const v of dims[keys[i]]) {
			acc[keys[i]] = v;
			yield* go(i + 1, acc);
		}
	}
	yield* go(0, {});
}
export function* subsets(items) {
	for (let m = 0; m < 1 << items.length; m++) yield items.filter((_, i) => m & (1 << i));
}
export function* permutations(items) {
	if (items.length <= 1) {
		yield [...items];
		return;
	}
	for (let i = 0; i < items.length; i++) {
		const rest = [...items.slice(0, i), ...items.slice(i + 1)];
		for (const p of permutations(rest)) yield [items[i], ...p];
	}
}
