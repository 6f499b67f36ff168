from mcacheck import MCACheck


class CHECK(MCACheck):
    id = "C06"
    lib = "mca_int"
    integer = True
    rule = ("operations (scalar and vector, binary32/64, add/sub/mul/div/fma) x generated (mode, precision, seed); "
            "non-trivial = finite non-zero result different from every operand; distinct by configuration, operands "
            "and result")
    assumptions = ["the error of the extended-precision intermediate (2^-51 resp. 2^-111 relative) is added to the bound"]
