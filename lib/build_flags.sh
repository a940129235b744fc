BCFLAGS="-std=c++11 -O1 -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -DREFLECT_USE_EXCEPTIONS=1 -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -c"
