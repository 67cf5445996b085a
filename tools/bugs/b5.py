MA='src/Matrix.hpp'; VE='src/Vector.hpp'
BUGS=[
dict(id='b35-tiled-transpose', property='C20', needs='a matrix with more than thirty-two columns that is not square',
 breaks='the transpose, taken in tiles, bounds the last tile of columns by the number of rows',
 edits=[(MA,"""        for (auto j = 0; j < ncols_; j++) {
            for (auto i = 0; i < nrows_; i++) {
                res(j, i) = data_[flattenIndex_(i, j)];
            }
        }
        return res;
""","""        // Go by square tiles to stay in cache
        const auto tile = 32;
        for (auto j0 = 0; j0 < ncols_; j0 += tile) {
            auto j1 = (j0 == 0) ? std::min<decltype(ncols_)>(tile, ncols_) : std::min<decltype(ncols_)>(j0 + tile, std::min(ncols_, std::max<decltype(ncols_)>(nrows_, tile)));
            for (auto i = 0; i < nrows_; i++) {
                for (auto j = j0; j < j1; j++) {
                    res(j, i) = data_[flattenIndex_(i, j)];
                }
            }
        }
        return res;
""")],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Matrix<double> A(5, 40, 0.0); for (int i = 0; i < 5; i++) for (int j = 0; j < 40; j++) A(i, j) = 100 * i + j + 1;
    Matrix<double> B = A.T(); bool same = true;
    for (int i = 0; i < 5; i++) for (int j = 0; j < 40; j++) same = same && B(j, i) == A(i, j);
    EXPECT(same);
    return finish();
}'''),
dict(id='b36-dot-in-blocks', property='C19', needs='vectors longer than 128 whose length is not a multiple of eight',
 breaks='the dot product of long vectors is taken in blocks of eight and leaves out the remaining entries',
 edits=[(VE,"""        NumericalType res = 0;
        for (auto i = 0; i < size_; i++) {
            res += rhs[i] * data_[i];
        }
        return res;
""","""        NumericalType res = 0;
        if (size_ > 128) {
            // Long vectors go by blocks
            NumericalType part[8] = {};
            for (std::size_t i = 0; i + 8 <= size_; i += 8) {
                for (int k = 0; k < 8; k++) part[k] += rhs[i + k] * data_[i + k];
            }
            for (int k = 0; k < 8; k++) res += part[k];
            return res;
        }
        for (auto i = 0; i < size_; i++) {
            res += rhs[i] * data_[i];
        }
        return res;
""")],
 demo=r'''
int main(int argc, char** argv) {
    start(argc, argv);
    Vector<double> a(131, 1.0), b(131, 2.0), c(136, 1.0), d(136, 2.0);
    EXPECT(a.size() == 131);
    auto dot = [](Vector<double>& x, Vector<double>& y) { return x.operator*(y); };
    EXPECT(dot(a, b) == 262); EXPECT(dot(c, d) == 272);
    return finish();
}'''),
]
