package data

// vpOrder is the order a sort puts up to three rows in.
var vpOrder [3]int

// vpOrders takes the orders one by one.
func vpOrders(f func()) {
	if vpConcrete() {
		f()
		return
	}
	n := vpAny[int]()
	vpRequires(n >= 0 && n < 6)
	for i, o := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
		if n == i {
			vpOrder = o
			f()
			return
		}
	}
}

// sum_sort stands for the sorts of package sort, for up to three rows: the
// rows end in some order in which none comes before the one ahead of it.
//
//verif:for sort.Slice
//verif:for sort.SliceStable
func sum_sort(x any, less func(i, j int) bool) {
	rows := x.([]*DataRow)
	n := len(rows)
	vpRequires(n <= 3)
	for i := 0; i < n && vpOrder[0] == 0 && vpOrder[1] == 1; i++ {
		for j := 0; j < i; j++ {
			vpEnsures("of two rows one comes first", !(less(i, j) && less(j, i)))
			for k := 0; k < n; k++ {
				vpEnsures("rows between two rows", k == i || k == j || !less(i, j) || less(i, k) || less(k, j))
				vpEnsures("rows between two rows", k == i || k == j || !less(j, i) || less(j, k) || less(k, i))
			}
		}
	}
	from := append([]*DataRow{}, rows...)
	for i := range rows {
		vpRequires(vpOrder[i] < n)
		rows[i] = from[vpOrder[i]]
	}
	for i := 1; i < n; i++ {
		vpRequires(!less(i, i-1))
	}
}

// vpCase takes the values of a number one by one.
func vpCase(n, from, to int, f func(n int)) {
	for i := from; i <= to; i++ {
		if n == i {
			f(i)
			return
		}
	}
}
