CLAIMS = {
    "P01": "exhaustive over all operand pairs for host, thumbv6m and riscv32i builds",
    "P03": "exhaustive over all inputs for host and 32-bit builds",
    "P04": "exhaustive over all operand pairs, split into cases by exponent difference",
    "P07": "exhaustive over all operand pairs",
    "P08": "exhaustive over all integers",
    "P09": "exhaustive over all bit patterns",
    "P10": "exhaustive over all bit patterns",
    "P12": "lengths up to 40 bytes (28 for overlapping moves), every alignment and contents",
    "P13": "lengths up to 70 bytes, every contents",
    "P16": "exhaustive over all bit patterns",
    "P17": "exhaustive over all operand pairs",
    "P19": "all binary16 bit patterns; for the wider formats all special arguments and one window of consecutive significands per seed table entry",
    "P21": "exhaustive over all bit patterns and exponent arguments",
    "P22": "exhaustive over all bit patterns",
    "P02": "all operand pairs with a nonzero divisor, the widest divisions by a linear abstraction of the products; 128-bit division without arch on classes of leading bits",
    "P05": "all operand pairs of binary16, binary32, binary64; binary128 by product abstraction in the thorough tier",
    "P14": "all operand values, positions in the word and interference values, up to 3 failing replacements",
    "P27": "exhaustive over all operands of the support operations; the narrowing division by cases on the top bit of the divisor",
    "P28": "exhaustive over all arguments, with the math functions uninterpreted",
    "P29": "all operand values and interference values, up to 3 failing exclusive stores, both dispatch paths",
    "P11": "exhaustive over all 2^32 exponents, multiplications read as adding exponents",
    "P15": "all operand values; the instructions of each entry point executed around the function it calls, per target",
    "P26": "all cpuid and xgetbv answers and all values of the cached state",
    "P25": "all arguments, split by leading bits; arithmetic abstracted to functions of magnitudes and relative sign within intervals; trigonometric functions below 1 (f32) and 1/2 (f64)",
    "P23": "every argument of each special class, f32 and f64; arithmetic on ordinary operands abstracted to intervals",
    "P24": "all arguments of the functions listed in the evidence, overflow-checked build; arithmetic on ordinary operands abstracted to intervals",
    "P31": "frames of up to 48 pages (256 thorough), any stack pointer; host, i686 and x86_64 UEFI routines",
}
