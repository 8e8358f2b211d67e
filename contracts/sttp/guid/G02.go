package guid

func contract_G02_order(a, b, c Guid) {
	ab, ba, bc, ac := Compare(a, b), Compare(b, a), Compare(b, c), Compare(a, c)
	vpEnsures("result is -1, 0 or 1", ab == -1 || ab == 0 || ab == 1)
	vpEnsures("antisymmetric", ab == -ba)
	vpEnsures("zero exactly when equal", (ab == 0) == (a == b))
	vpEnsures("transitive", !(ab <= 0 && bc <= 0) || ac <= 0)
}
