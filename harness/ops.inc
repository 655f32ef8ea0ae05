// One entry per public operation: OPn(label, argument domain, mutates its first operand, operand types..., expression).
// Domains: F anything, I small non-zero ints, S shifts, M very small ints, A ints whose partial sums fit, K ints whose partial products fit, T last float in [0,1], X index within the object, P camera (fov, aspect, near, far).
OP1("cos(float)", 'F', 0, float, zcm::cos(a))
OP1("cos(vec2)", 'F', 0, vec2, zcm::cos(a))
OP1("cos(vec3)", 'F', 0, vec3, zcm::cos(a))
OP1("cos(vec4)", 'F', 0, vec4, zcm::cos(a))
OP1("sin(float)", 'F', 0, float, zcm::sin(a))
OP1("sin(vec2)", 'F', 0, vec2, zcm::sin(a))
OP1("sin(vec3)", 'F', 0, vec3, zcm::sin(a))
OP1("sin(vec4)", 'F', 0, vec4, zcm::sin(a))
OP1("acos(float)", 'F', 0, float, zcm::acos(a))
OP1("acos(vec2)", 'F', 0, vec2, zcm::acos(a))
OP1("acos(vec3)", 'F', 0, vec3, zcm::acos(a))
OP1("acos(vec4)", 'F', 0, vec4, zcm::acos(a))
OP1("acosh(float)", 'F', 0, float, zcm::acosh(a))
OP1("acosh(vec2)", 'F', 0, vec2, zcm::acosh(a))
OP1("acosh(vec3)", 'F', 0, vec3, zcm::acosh(a))
OP1("acosh(vec4)", 'F', 0, vec4, zcm::acosh(a))
OP1("asin(float)", 'F', 0, float, zcm::asin(a))
OP1("asin(vec2)", 'F', 0, vec2, zcm::asin(a))
OP1("asin(vec3)", 'F', 0, vec3, zcm::asin(a))
OP1("asin(vec4)", 'F', 0, vec4, zcm::asin(a))
OP1("asinh(float)", 'F', 0, float, zcm::asinh(a))
OP1("asinh(vec2)", 'F', 0, vec2, zcm::asinh(a))
OP1("asinh(vec3)", 'F', 0, vec3, zcm::asinh(a))
OP1("asinh(vec4)", 'F', 0, vec4, zcm::asinh(a))
OP2("atan(float,float)", 'F', 0, float, float, zcm::atan(a, b))
OP2("atan(vec2,vec2)", 'F', 0, vec2, vec2, zcm::atan(a, b))
OP2("atan(vec3,vec3)", 'F', 0, vec3, vec3, zcm::atan(a, b))
OP2("atan(vec4,vec4)", 'F', 0, vec4, vec4, zcm::atan(a, b))
OP1("atan(float)", 'F', 0, float, zcm::atan(a))
OP1("atan(vec2)", 'F', 0, vec2, zcm::atan(a))
OP1("atan(vec3)", 'F', 0, vec3, zcm::atan(a))
OP1("atan(vec4)", 'F', 0, vec4, zcm::atan(a))
OP1("atanh(float)", 'F', 0, float, zcm::atanh(a))
OP1("atanh(vec2)", 'F', 0, vec2, zcm::atanh(a))
OP1("atanh(vec3)", 'F', 0, vec3, zcm::atanh(a))
OP1("atanh(vec4)", 'F', 0, vec4, zcm::atanh(a))
OP1("cosh(float)", 'F', 0, float, zcm::cosh(a))
OP1("cosh(vec2)", 'F', 0, vec2, zcm::cosh(a))
OP1("cosh(vec3)", 'F', 0, vec3, zcm::cosh(a))
OP1("cosh(vec4)", 'F', 0, vec4, zcm::cosh(a))
OP1("degrees(float)", 'F', 0, float, zcm::degrees(a))
OP1("degrees(vec2)", 'F', 0, vec2, zcm::degrees(a))
OP1("degrees(vec3)", 'F', 0, vec3, zcm::degrees(a))
OP1("degrees(vec4)", 'F', 0, vec4, zcm::degrees(a))
OP1("radians(float)", 'F', 0, float, zcm::radians(a))
OP1("radians(vec2)", 'F', 0, vec2, zcm::radians(a))
OP1("radians(vec3)", 'F', 0, vec3, zcm::radians(a))
OP1("radians(vec4)", 'F', 0, vec4, zcm::radians(a))
OP1("sinh(float)", 'F', 0, float, zcm::sinh(a))
OP1("sinh(vec2)", 'F', 0, vec2, zcm::sinh(a))
OP1("sinh(vec3)", 'F', 0, vec3, zcm::sinh(a))
OP1("sinh(vec4)", 'F', 0, vec4, zcm::sinh(a))
OP1("tan(float)", 'F', 0, float, zcm::tan(a))
OP1("tan(vec2)", 'F', 0, vec2, zcm::tan(a))
OP1("tan(vec3)", 'F', 0, vec3, zcm::tan(a))
OP1("tan(vec4)", 'F', 0, vec4, zcm::tan(a))
OP1("tanh(float)", 'F', 0, float, zcm::tanh(a))
OP1("tanh(vec2)", 'F', 0, vec2, zcm::tanh(a))
OP1("tanh(vec3)", 'F', 0, vec3, zcm::tanh(a))
OP1("tanh(vec4)", 'F', 0, vec4, zcm::tanh(a))
OP0("bvec2::bvec2()", 'F', 0, bvec2())
OP1("bvec2::bvec2(bool)", 'F', 0, bool, bvec2(a))
OP2("bvec2::bvec2(bool,bool)", 'F', 0, bool, bool, bvec2(a, b))
OP2("bvec2::operator[](unsigned)", 'X', 0, bvec2, unsigned, a[b])
OP2("bvec2::operator[](unsigned) const", 'X', 0, bvec2, unsigned, kst(a)[b])
OP2("bvec2::operator&=(bool)", 'F', 1, bvec2, bool, (a &= b, a))
OP2("bvec2::operator|=(bool)", 'F', 1, bvec2, bool, (a |= b, a))
OP2("bvec2::operator^=(bool)", 'F', 1, bvec2, bool, (a ^= b, a))
OP2("bvec2::operator&=(bvec2)", 'F', 1, bvec2, bvec2, (a &= b, a))
OP2("bvec2::operator|=(bvec2)", 'F', 1, bvec2, bvec2, (a |= b, a))
OP2("bvec2::operator^=(bvec2)", 'F', 1, bvec2, bvec2, (a ^= b, a))
OP2("operator==(bvec2,bvec2)", 'F', 0, bvec2, bvec2, (a == b))
OP2("operator!=(bvec2,bvec2)", 'F', 0, bvec2, bvec2, (a != b))
OP1("operator!(bvec2)", 'F', 0, bvec2, (!a))
OP2("operator&&(bvec2,bvec2)", 'F', 0, bvec2, bvec2, (a && b))
OP2("operator||(bvec2,bvec2)", 'F', 0, bvec2, bvec2, (a || b))
OP2("operator^(bvec2,bvec2)", 'F', 0, bvec2, bvec2, (a ^ b))
OP2("operator&&(bvec2,bool)", 'F', 0, bvec2, bool, (a && b))
OP2("operator||(bvec2,bool)", 'F', 0, bvec2, bool, (a || b))
OP2("operator^(bvec2,bool)", 'F', 0, bvec2, bool, (a ^ b))
OP2("operator&&(bool,bvec2)", 'F', 0, bool, bvec2, (a && b))
OP2("operator||(bool,bvec2)", 'F', 0, bool, bvec2, (a || b))
OP2("operator^(bool,bvec2)", 'F', 0, bool, bvec2, (a ^ b))
OP0("bvec3::bvec3()", 'F', 0, bvec3())
OP1("bvec3::bvec3(bool)", 'F', 0, bool, bvec3(a))
OP3("bvec3::bvec3(bool,bool,bool)", 'F', 0, bool, bool, bool, bvec3(a, b, c))
OP2("bvec3::bvec3(bvec2,bool)", 'F', 0, bvec2, bool, bvec3(a, b))
OP2("bvec3::bvec3(bool,bvec2)", 'F', 0, bool, bvec2, bvec3(a, b))
OP2("bvec3::operator[](unsigned)", 'X', 0, bvec3, unsigned, a[b])
OP2("bvec3::operator[](unsigned) const", 'X', 0, bvec3, unsigned, kst(a)[b])
OP2("bvec3::operator&=(bool)", 'F', 1, bvec3, bool, (a &= b, a))
OP2("bvec3::operator|=(bool)", 'F', 1, bvec3, bool, (a |= b, a))
OP2("bvec3::operator^=(bool)", 'F', 1, bvec3, bool, (a ^= b, a))
OP2("bvec3::operator&=(bvec3)", 'F', 1, bvec3, bvec3, (a &= b, a))
OP2("bvec3::operator|=(bvec3)", 'F', 1, bvec3, bvec3, (a |= b, a))
OP2("bvec3::operator^=(bvec3)", 'F', 1, bvec3, bvec3, (a ^= b, a))
OP2("operator==(bvec3,bvec3)", 'F', 0, bvec3, bvec3, (a == b))
OP2("operator!=(bvec3,bvec3)", 'F', 0, bvec3, bvec3, (a != b))
OP1("operator!(bvec3)", 'F', 0, bvec3, (!a))
OP2("operator&&(bvec3,bvec3)", 'F', 0, bvec3, bvec3, (a && b))
OP2("operator||(bvec3,bvec3)", 'F', 0, bvec3, bvec3, (a || b))
OP2("operator^(bvec3,bvec3)", 'F', 0, bvec3, bvec3, (a ^ b))
OP2("operator&&(bvec3,bool)", 'F', 0, bvec3, bool, (a && b))
OP2("operator||(bvec3,bool)", 'F', 0, bvec3, bool, (a || b))
OP2("operator^(bvec3,bool)", 'F', 0, bvec3, bool, (a ^ b))
OP2("operator&&(bool,bvec3)", 'F', 0, bool, bvec3, (a && b))
OP2("operator||(bool,bvec3)", 'F', 0, bool, bvec3, (a || b))
OP2("operator^(bool,bvec3)", 'F', 0, bool, bvec3, (a ^ b))
OP0("bvec4::bvec4()", 'F', 0, bvec4())
OP1("bvec4::bvec4(bool)", 'F', 0, bool, bvec4(a))
OP4("bvec4::bvec4(bool,bool,bool,bool)", 'F', 0, bool, bool, bool, bool, bvec4(a, b, c, d))
OP2("bvec4::bvec4(bvec3,bool)", 'F', 0, bvec3, bool, bvec4(a, b))
OP2("bvec4::bvec4(bool,bvec3)", 'F', 0, bool, bvec3, bvec4(a, b))
OP2("bvec4::bvec4(bvec2,bvec2)", 'F', 0, bvec2, bvec2, bvec4(a, b))
OP3("bvec4::bvec4(bvec2,bool,bool)", 'F', 0, bvec2, bool, bool, bvec4(a, b, c))
OP3("bvec4::bvec4(bool,bvec2,bool)", 'F', 0, bool, bvec2, bool, bvec4(a, b, c))
OP3("bvec4::bvec4(bool,bool,bvec2)", 'F', 0, bool, bool, bvec2, bvec4(a, b, c))
OP2("bvec4::operator[](unsigned)", 'X', 0, bvec4, unsigned, a[b])
OP2("bvec4::operator[](unsigned) const", 'X', 0, bvec4, unsigned, kst(a)[b])
OP2("bvec4::operator&=(bool)", 'F', 1, bvec4, bool, (a &= b, a))
OP2("bvec4::operator|=(bool)", 'F', 1, bvec4, bool, (a |= b, a))
OP2("bvec4::operator^=(bool)", 'F', 1, bvec4, bool, (a ^= b, a))
OP2("bvec4::operator&=(bvec4)", 'F', 1, bvec4, bvec4, (a &= b, a))
OP2("bvec4::operator|=(bvec4)", 'F', 1, bvec4, bvec4, (a |= b, a))
OP2("bvec4::operator^=(bvec4)", 'F', 1, bvec4, bvec4, (a ^= b, a))
OP2("operator==(bvec4,bvec4)", 'F', 0, bvec4, bvec4, (a == b))
OP2("operator!=(bvec4,bvec4)", 'F', 0, bvec4, bvec4, (a != b))
OP1("operator!(bvec4)", 'F', 0, bvec4, (!a))
OP2("operator&&(bvec4,bvec4)", 'F', 0, bvec4, bvec4, (a && b))
OP2("operator||(bvec4,bvec4)", 'F', 0, bvec4, bvec4, (a || b))
OP2("operator^(bvec4,bvec4)", 'F', 0, bvec4, bvec4, (a ^ b))
OP2("operator&&(bvec4,bool)", 'F', 0, bvec4, bool, (a && b))
OP2("operator||(bvec4,bool)", 'F', 0, bvec4, bool, (a || b))
OP2("operator^(bvec4,bool)", 'F', 0, bvec4, bool, (a ^ b))
OP2("operator&&(bool,bvec4)", 'F', 0, bool, bvec4, (a && b))
OP2("operator||(bool,bvec4)", 'F', 0, bool, bvec4, (a || b))
OP2("operator^(bool,bvec4)", 'F', 0, bool, bvec4, (a ^ b))
OP1("convertLinearToSRGB(vec3)", 'F', 0, vec3, zcm::convertLinearToSRGB(a))
OP1("convertLinearToSRGB(vec4)", 'F', 0, vec4, zcm::convertLinearToSRGB(a))
OP2("convertLinearToSRGB(vec3,float)", 'F', 0, vec3, float, zcm::convertLinearToSRGB(a, b))
OP2("convertLinearToSRGB(vec4,float)", 'F', 0, vec4, float, zcm::convertLinearToSRGB(a, b))
OP1("convertSRGBToLinear(vec3)", 'F', 0, vec3, zcm::convertSRGBToLinear(a))
OP1("convertSRGBToLinear(vec4)", 'F', 0, vec4, zcm::convertSRGBToLinear(a))
OP2("convertSRGBToLinear(vec3,float)", 'F', 0, vec3, float, zcm::convertSRGBToLinear(a, b))
OP2("convertSRGBToLinear(vec4,float)", 'F', 0, vec4, float, zcm::convertSRGBToLinear(a, b))
OP1("abs(float)", 'I', 0, float, zcm::abs(a))
OP1("abs(vec2)", 'I', 0, vec2, zcm::abs(a))
OP1("abs(vec3)", 'I', 0, vec3, zcm::abs(a))
OP1("abs(vec4)", 'I', 0, vec4, zcm::abs(a))
OP1("abs(int)", 'I', 0, int, zcm::abs(a))
OP1("abs(ivec2)", 'I', 0, ivec2, zcm::abs(a))
OP1("abs(ivec3)", 'I', 0, ivec3, zcm::abs(a))
OP1("abs(ivec4)", 'I', 0, ivec4, zcm::abs(a))
OP1("all(bvec2)", 'F', 0, bvec2, zcm::all(a))
OP1("all(bvec3)", 'F', 0, bvec3, zcm::all(a))
OP1("all(bvec4)", 'F', 0, bvec4, zcm::all(a))
OP1("any(bvec2)", 'F', 0, bvec2, zcm::any(a))
OP1("any(bvec3)", 'F', 0, bvec3, zcm::any(a))
OP1("any(bvec4)", 'F', 0, bvec4, zcm::any(a))
OP1("ceil(float)", 'F', 0, float, zcm::ceil(a))
OP1("ceil(vec2)", 'F', 0, vec2, zcm::ceil(a))
OP1("ceil(vec3)", 'F', 0, vec3, zcm::ceil(a))
OP1("ceil(vec4)", 'F', 0, vec4, zcm::ceil(a))
OP3("clamp(float,float,float)", 'F', 0, float, float, float, zcm::clamp(a, b, c))
OP3("clamp(vec2,vec2,vec2)", 'F', 0, vec2, vec2, vec2, zcm::clamp(a, b, c))
OP3("clamp(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, zcm::clamp(a, b, c))
OP3("clamp(vec4,vec4,vec4)", 'F', 0, vec4, vec4, vec4, zcm::clamp(a, b, c))
OP3("clamp(int,int,int)", 'F', 0, int, int, int, zcm::clamp(a, b, c))
OP3("clamp(ivec2,ivec2,ivec2)", 'F', 0, ivec2, ivec2, ivec2, zcm::clamp(a, b, c))
OP3("clamp(ivec3,ivec3,ivec3)", 'F', 0, ivec3, ivec3, ivec3, zcm::clamp(a, b, c))
OP3("clamp(ivec4,ivec4,ivec4)", 'F', 0, ivec4, ivec4, ivec4, zcm::clamp(a, b, c))
OP1("floor(float)", 'F', 0, float, zcm::floor(a))
OP1("floor(vec2)", 'F', 0, vec2, zcm::floor(a))
OP1("floor(vec3)", 'F', 0, vec3, zcm::floor(a))
OP1("floor(vec4)", 'F', 0, vec4, zcm::floor(a))
OP3("fma(float,float,float)", 'F', 0, float, float, float, zcm::fma(a, b, c))
OP3("fma(vec2,vec2,vec2)", 'F', 0, vec2, vec2, vec2, zcm::fma(a, b, c))
OP3("fma(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, zcm::fma(a, b, c))
OP3("fma(vec4,vec4,vec4)", 'F', 0, vec4, vec4, vec4, zcm::fma(a, b, c))
OP1("fract(float)", 'F', 0, float, zcm::fract(a))
OP1("fract(vec2)", 'F', 0, vec2, zcm::fract(a))
OP1("fract(vec3)", 'F', 0, vec3, zcm::fract(a))
OP1("fract(vec4)", 'F', 0, vec4, zcm::fract(a))
OP1("isinf(float)", 'F', 0, float, zcm::isinf(a))
OP1("isinf(vec2)", 'F', 0, vec2, zcm::isinf(a))
OP1("isinf(vec3)", 'F', 0, vec3, zcm::isinf(a))
OP1("isinf(vec4)", 'F', 0, vec4, zcm::isinf(a))
OP1("isinf(quat)", 'F', 0, quat, zcm::isinf(a))
OP1("isnan(float)", 'F', 0, float, zcm::isnan(a))
OP1("isnan(vec2)", 'F', 0, vec2, zcm::isnan(a))
OP1("isnan(vec3)", 'F', 0, vec3, zcm::isnan(a))
OP1("isnan(vec4)", 'F', 0, vec4, zcm::isnan(a))
OP1("isnan(quat)", 'F', 0, quat, zcm::isnan(a))
OP2("max(float,float)", 'F', 0, float, float, zcm::max(a, b))
OP2("max(vec2,vec2)", 'F', 0, vec2, vec2, zcm::max(a, b))
OP2("max(vec3,vec3)", 'F', 0, vec3, vec3, zcm::max(a, b))
OP2("max(vec4,vec4)", 'F', 0, vec4, vec4, zcm::max(a, b))
OP2("max(int,int)", 'F', 0, int, int, zcm::max(a, b))
OP2("max(ivec2,ivec2)", 'F', 0, ivec2, ivec2, zcm::max(a, b))
OP2("max(ivec3,ivec3)", 'F', 0, ivec3, ivec3, zcm::max(a, b))
OP2("max(ivec4,ivec4)", 'F', 0, ivec4, ivec4, zcm::max(a, b))
OP2("min(float,float)", 'F', 0, float, float, zcm::min(a, b))
OP2("min(vec2,vec2)", 'F', 0, vec2, vec2, zcm::min(a, b))
OP2("min(vec3,vec3)", 'F', 0, vec3, vec3, zcm::min(a, b))
OP2("min(vec4,vec4)", 'F', 0, vec4, vec4, zcm::min(a, b))
OP2("min(int,int)", 'F', 0, int, int, zcm::min(a, b))
OP2("min(ivec2,ivec2)", 'F', 0, ivec2, ivec2, zcm::min(a, b))
OP2("min(ivec3,ivec3)", 'F', 0, ivec3, ivec3, zcm::min(a, b))
OP2("min(ivec4,ivec4)", 'F', 0, ivec4, ivec4, zcm::min(a, b))
OP2("mod(float,float)", 'F', 0, float, float, zcm::mod(a, b))
OP2("mod(vec2,vec2)", 'F', 0, vec2, vec2, zcm::mod(a, b))
OP2("mod(vec3,vec3)", 'F', 0, vec3, vec3, zcm::mod(a, b))
OP2("mod(vec4,vec4)", 'F', 0, vec4, vec4, zcm::mod(a, b))
OP2("mod(vec2,float)", 'F', 0, vec2, float, zcm::mod(a, b))
OP2("mod(vec3,float)", 'F', 0, vec3, float, zcm::mod(a, b))
OP2("mod(vec4,float)", 'F', 0, vec4, float, zcm::mod(a, b))
OP1("round(float)", 'F', 0, float, zcm::round(a))
OP1("round(vec2)", 'F', 0, vec2, zcm::round(a))
OP1("round(vec3)", 'F', 0, vec3, zcm::round(a))
OP1("round(vec4)", 'F', 0, vec4, zcm::round(a))
OP1("roundEven(float)", 'F', 0, float, zcm::roundEven(a))
OP1("roundEven(vec2)", 'F', 0, vec2, zcm::roundEven(a))
OP1("roundEven(vec3)", 'F', 0, vec3, zcm::roundEven(a))
OP1("roundEven(vec4)", 'F', 0, vec4, zcm::roundEven(a))
OP1("sign(float)", 'F', 0, float, zcm::sign(a))
OP1("sign(vec2)", 'F', 0, vec2, zcm::sign(a))
OP1("sign(vec3)", 'F', 0, vec3, zcm::sign(a))
OP1("sign(vec4)", 'F', 0, vec4, zcm::sign(a))
OP1("sign(int)", 'F', 0, int, zcm::sign(a))
OP1("sign(ivec2)", 'F', 0, ivec2, zcm::sign(a))
OP1("sign(ivec3)", 'F', 0, ivec3, zcm::sign(a))
OP1("sign(ivec4)", 'F', 0, ivec4, zcm::sign(a))
OP1("signNotZero(float)", 'F', 0, float, zcm::signNotZero(a))
OP1("signNotZero(vec2)", 'F', 0, vec2, zcm::signNotZero(a))
OP1("signNotZero(vec3)", 'F', 0, vec3, zcm::signNotZero(a))
OP1("signNotZero(vec4)", 'F', 0, vec4, zcm::signNotZero(a))
OP1("signNotZero(int)", 'F', 0, int, zcm::signNotZero(a))
OP1("signNotZero(ivec2)", 'F', 0, ivec2, zcm::signNotZero(a))
OP1("signNotZero(ivec3)", 'F', 0, ivec3, zcm::signNotZero(a))
OP1("signNotZero(ivec4)", 'F', 0, ivec4, zcm::signNotZero(a))
OP3("mix(float,float,float)", 'F', 0, float, float, float, zcm::mix(a, b, c))
OP3("mix(vec2,vec2,float)", 'F', 0, vec2, vec2, float, zcm::mix(a, b, c))
OP3("mix(vec3,vec3,float)", 'F', 0, vec3, vec3, float, zcm::mix(a, b, c))
OP3("mix(vec4,vec4,float)", 'F', 0, vec4, vec4, float, zcm::mix(a, b, c))
OP3("mix(vec2,vec2,vec2)", 'F', 0, vec2, vec2, vec2, zcm::mix(a, b, c))
OP3("mix(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, zcm::mix(a, b, c))
OP3("mix(vec4,vec4,vec4)", 'F', 0, vec4, vec4, vec4, zcm::mix(a, b, c))
OP3("mix(float,float,bool)", 'F', 0, float, float, bool, zcm::mix(a, b, c))
OP3("mix(vec2,vec2,bvec2)", 'F', 0, vec2, vec2, bvec2, zcm::mix(a, b, c))
OP3("mix(vec3,vec3,bvec3)", 'F', 0, vec3, vec3, bvec3, zcm::mix(a, b, c))
OP3("mix(vec4,vec4,bvec4)", 'F', 0, vec4, vec4, bvec4, zcm::mix(a, b, c))
OP2("step(float,float)", 'F', 0, float, float, zcm::step(a, b))
OP2("step(vec2,vec2)", 'F', 0, vec2, vec2, zcm::step(a, b))
OP2("step(vec3,vec3)", 'F', 0, vec3, vec3, zcm::step(a, b))
OP2("step(vec4,vec4)", 'F', 0, vec4, vec4, zcm::step(a, b))
OP3("smoothstep(float,float,float)", 'F', 0, float, float, float, zcm::smoothstep(a, b, c))
OP3("smoothstep(vec2,vec2,vec2)", 'F', 0, vec2, vec2, vec2, zcm::smoothstep(a, b, c))
OP3("smoothstep(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, zcm::smoothstep(a, b, c))
OP3("smoothstep(vec4,vec4,vec4)", 'F', 0, vec4, vec4, vec4, zcm::smoothstep(a, b, c))
OP1("trunc(float)", 'F', 0, float, zcm::trunc(a))
OP1("trunc(vec2)", 'F', 0, vec2, zcm::trunc(a))
OP1("trunc(vec3)", 'F', 0, vec3, zcm::trunc(a))
OP1("trunc(vec4)", 'F', 0, vec4, zcm::trunc(a))
OP2("lessThan(vec2,vec2)", 'F', 0, vec2, vec2, zcm::lessThan(a, b))
OP2("lessThan(vec3,vec3)", 'F', 0, vec3, vec3, zcm::lessThan(a, b))
OP2("lessThan(vec4,vec4)", 'F', 0, vec4, vec4, zcm::lessThan(a, b))
OP2("lessThanEqual(vec2,vec2)", 'F', 0, vec2, vec2, zcm::lessThanEqual(a, b))
OP2("lessThanEqual(vec3,vec3)", 'F', 0, vec3, vec3, zcm::lessThanEqual(a, b))
OP2("lessThanEqual(vec4,vec4)", 'F', 0, vec4, vec4, zcm::lessThanEqual(a, b))
OP2("greaterThan(vec2,vec2)", 'F', 0, vec2, vec2, zcm::greaterThan(a, b))
OP2("greaterThan(vec3,vec3)", 'F', 0, vec3, vec3, zcm::greaterThan(a, b))
OP2("greaterThan(vec4,vec4)", 'F', 0, vec4, vec4, zcm::greaterThan(a, b))
OP2("greaterThanEqual(vec2,vec2)", 'F', 0, vec2, vec2, zcm::greaterThanEqual(a, b))
OP2("greaterThanEqual(vec3,vec3)", 'F', 0, vec3, vec3, zcm::greaterThanEqual(a, b))
OP2("greaterThanEqual(vec4,vec4)", 'F', 0, vec4, vec4, zcm::greaterThanEqual(a, b))
OP2("equal(bvec2,bvec2)", 'F', 0, bvec2, bvec2, zcm::equal(a, b))
OP2("equal(bvec3,bvec3)", 'F', 0, bvec3, bvec3, zcm::equal(a, b))
OP2("equal(bvec4,bvec4)", 'F', 0, bvec4, bvec4, zcm::equal(a, b))
OP2("equal(vec2,vec2)", 'F', 0, vec2, vec2, zcm::equal(a, b))
OP2("equal(vec3,vec3)", 'F', 0, vec3, vec3, zcm::equal(a, b))
OP2("equal(vec4,vec4)", 'F', 0, vec4, vec4, zcm::equal(a, b))
OP2("equal(quat,quat)", 'F', 0, quat, quat, zcm::equal(a, b))
OP2("notEqual(bvec2,bvec2)", 'F', 0, bvec2, bvec2, zcm::notEqual(a, b))
OP2("notEqual(bvec3,bvec3)", 'F', 0, bvec3, bvec3, zcm::notEqual(a, b))
OP2("notEqual(bvec4,bvec4)", 'F', 0, bvec4, bvec4, zcm::notEqual(a, b))
OP2("notEqual(vec2,vec2)", 'F', 0, vec2, vec2, zcm::notEqual(a, b))
OP2("notEqual(vec3,vec3)", 'F', 0, vec3, vec3, zcm::notEqual(a, b))
OP2("notEqual(vec4,vec4)", 'F', 0, vec4, vec4, zcm::notEqual(a, b))
OP2("notEqual(quat,quat)", 'F', 0, quat, quat, zcm::notEqual(a, b))
OP1("compAdd(vec2)", 'I', 0, vec2, zcm::compAdd(a))
OP1("compAdd(vec3)", 'I', 0, vec3, zcm::compAdd(a))
OP1("compAdd(vec4)", 'I', 0, vec4, zcm::compAdd(a))
OP1("compAdd(ivec2)", 'A', 0, ivec2, zcm::compAdd(a))
OP1("compAdd(ivec3)", 'A', 0, ivec3, zcm::compAdd(a))
OP1("compAdd(ivec4)", 'A', 0, ivec4, zcm::compAdd(a))
OP1("compMul(vec2)", 'M', 0, vec2, zcm::compMul(a))
OP1("compMul(vec3)", 'M', 0, vec3, zcm::compMul(a))
OP1("compMul(vec4)", 'M', 0, vec4, zcm::compMul(a))
OP1("compMul(ivec2)", 'K', 0, ivec2, zcm::compMul(a))
OP1("compMul(ivec3)", 'K', 0, ivec3, zcm::compMul(a))
OP1("compMul(ivec4)", 'K', 0, ivec4, zcm::compMul(a))
OP1("compMin(vec2)", 'F', 0, vec2, zcm::compMin(a))
OP1("compMin(vec3)", 'F', 0, vec3, zcm::compMin(a))
OP1("compMin(vec4)", 'F', 0, vec4, zcm::compMin(a))
OP1("compMin(ivec2)", 'F', 0, ivec2, zcm::compMin(a))
OP1("compMin(ivec3)", 'F', 0, ivec3, zcm::compMin(a))
OP1("compMin(ivec4)", 'F', 0, ivec4, zcm::compMin(a))
OP1("compMax(vec2)", 'F', 0, vec2, zcm::compMax(a))
OP1("compMax(vec3)", 'F', 0, vec3, zcm::compMax(a))
OP1("compMax(vec4)", 'F', 0, vec4, zcm::compMax(a))
OP1("compMax(ivec2)", 'F', 0, ivec2, zcm::compMax(a))
OP1("compMax(ivec3)", 'F', 0, ivec3, zcm::compMax(a))
OP1("compMax(ivec4)", 'F', 0, ivec4, zcm::compMax(a))
OP0("epsilon()", 'F', 0, zcm::epsilon())
OP0("zero()", 'F', 0, zcm::zero())
OP0("one()", 'F', 0, zcm::one())
OP0("pi()", 'F', 0, zcm::pi())
OP0("two_pi()", 'F', 0, zcm::two_pi())
OP0("root_pi()", 'F', 0, zcm::root_pi())
OP0("half_pi()", 'F', 0, zcm::half_pi())
OP0("three_over_two_pi()", 'F', 0, zcm::three_over_two_pi())
OP0("quarter_pi()", 'F', 0, zcm::quarter_pi())
OP0("one_over_pi()", 'F', 0, zcm::one_over_pi())
OP0("one_over_two_pi()", 'F', 0, zcm::one_over_two_pi())
OP0("two_over_pi()", 'F', 0, zcm::two_over_pi())
OP0("four_over_pi()", 'F', 0, zcm::four_over_pi())
OP0("two_over_root_pi()", 'F', 0, zcm::two_over_root_pi())
OP0("one_over_root_two()", 'F', 0, zcm::one_over_root_two())
OP0("root_half_pi()", 'F', 0, zcm::root_half_pi())
OP0("root_two_pi()", 'F', 0, zcm::root_two_pi())
OP0("root_ln_four()", 'F', 0, zcm::root_ln_four())
OP0("e()", 'F', 0, zcm::e())
OP0("euler()", 'F', 0, zcm::euler())
OP0("root_two()", 'F', 0, zcm::root_two())
OP0("root_three()", 'F', 0, zcm::root_three())
OP0("root_five()", 'F', 0, zcm::root_five())
OP0("ln_two()", 'F', 0, zcm::ln_two())
OP0("ln_ten()", 'F', 0, zcm::ln_ten())
OP0("ln_ln_two()", 'F', 0, zcm::ln_ln_two())
OP0("third()", 'F', 0, zcm::third())
OP0("two_thirds()", 'F', 0, zcm::two_thirds())
OP0("golden_ratio()", 'F', 0, zcm::golden_ratio())
OP1("exp(float)", 'F', 0, float, zcm::exp(a))
OP1("exp(vec2)", 'F', 0, vec2, zcm::exp(a))
OP1("exp(vec3)", 'F', 0, vec3, zcm::exp(a))
OP1("exp(vec4)", 'F', 0, vec4, zcm::exp(a))
OP1("exp(quat)", 'F', 0, quat, zcm::exp(a))
OP1("exp2(float)", 'F', 0, float, zcm::exp2(a))
OP1("exp2(vec2)", 'F', 0, vec2, zcm::exp2(a))
OP1("exp2(vec3)", 'F', 0, vec3, zcm::exp2(a))
OP1("exp2(vec4)", 'F', 0, vec4, zcm::exp2(a))
OP1("exp2(quat)", 'F', 0, quat, zcm::exp2(a))
OP1("inversesqrt(float)", 'F', 0, float, zcm::inversesqrt(a))
OP1("inversesqrt(vec2)", 'F', 0, vec2, zcm::inversesqrt(a))
OP1("inversesqrt(vec3)", 'F', 0, vec3, zcm::inversesqrt(a))
OP1("inversesqrt(vec4)", 'F', 0, vec4, zcm::inversesqrt(a))
OP1("inversesqrt(quat)", 'F', 0, quat, zcm::inversesqrt(a))
OP1("log(float)", 'F', 0, float, zcm::log(a))
OP1("log(vec2)", 'F', 0, vec2, zcm::log(a))
OP1("log(vec3)", 'F', 0, vec3, zcm::log(a))
OP1("log(vec4)", 'F', 0, vec4, zcm::log(a))
OP1("log(quat)", 'F', 0, quat, zcm::log(a))
OP1("log2(float)", 'F', 0, float, zcm::log2(a))
OP1("log2(vec2)", 'F', 0, vec2, zcm::log2(a))
OP1("log2(vec3)", 'F', 0, vec3, zcm::log2(a))
OP1("log2(vec4)", 'F', 0, vec4, zcm::log2(a))
OP1("log2(quat)", 'F', 0, quat, zcm::log2(a))
OP2("pow(float,float)", 'F', 0, float, float, zcm::pow(a, b))
OP2("pow(vec2,vec2)", 'F', 0, vec2, vec2, zcm::pow(a, b))
OP2("pow(vec3,vec3)", 'F', 0, vec3, vec3, zcm::pow(a, b))
OP2("pow(vec4,vec4)", 'F', 0, vec4, vec4, zcm::pow(a, b))
OP2("pow(quat,float)", 'F', 0, quat, float, zcm::pow(a, b))
OP1("sqrt(float)", 'F', 0, float, zcm::sqrt(a))
OP1("sqrt(vec2)", 'F', 0, vec2, zcm::sqrt(a))
OP1("sqrt(vec3)", 'F', 0, vec3, zcm::sqrt(a))
OP1("sqrt(vec4)", 'F', 0, vec4, zcm::sqrt(a))
OP1("sqrt(quat)", 'F', 0, quat, zcm::sqrt(a))
OP1("cbrt(float)", 'F', 0, float, zcm::cbrt(a))
OP1("cbrt(vec2)", 'F', 0, vec2, zcm::cbrt(a))
OP1("cbrt(vec3)", 'F', 0, vec3, zcm::cbrt(a))
OP1("cbrt(vec4)", 'F', 0, vec4, zcm::cbrt(a))
OP1("cbrt(quat)", 'F', 0, quat, zcm::cbrt(a))
OP2("dot(float,float)", 'F', 0, float, float, zcm::dot(a, b))
OP2("dot(vec2,vec2)", 'F', 0, vec2, vec2, zcm::dot(a, b))
OP2("dot(vec3,vec3)", 'F', 0, vec3, vec3, zcm::dot(a, b))
OP2("dot(vec4,vec4)", 'F', 0, vec4, vec4, zcm::dot(a, b))
OP2("dot(quat,quat)", 'F', 0, quat, quat, zcm::dot(a, b))
OP2("distance(float,float)", 'F', 0, float, float, zcm::distance(a, b))
OP2("distance(vec2,vec2)", 'F', 0, vec2, vec2, zcm::distance(a, b))
OP2("distance(vec3,vec3)", 'F', 0, vec3, vec3, zcm::distance(a, b))
OP2("distance(vec4,vec4)", 'F', 0, vec4, vec4, zcm::distance(a, b))
OP2("distance2(float,float)", 'F', 0, float, float, zcm::distance2(a, b))
OP2("distance2(vec2,vec2)", 'F', 0, vec2, vec2, zcm::distance2(a, b))
OP2("distance2(vec3,vec3)", 'F', 0, vec3, vec3, zcm::distance2(a, b))
OP2("distance2(vec4,vec4)", 'F', 0, vec4, vec4, zcm::distance2(a, b))
OP1("length(float)", 'F', 0, float, zcm::length(a))
OP1("length(vec2)", 'F', 0, vec2, zcm::length(a))
OP1("length(vec3)", 'F', 0, vec3, zcm::length(a))
OP1("length(vec4)", 'F', 0, vec4, zcm::length(a))
OP1("length(quat)", 'F', 0, quat, zcm::length(a))
OP1("length2(float)", 'F', 0, float, zcm::length2(a))
OP1("length2(vec2)", 'F', 0, vec2, zcm::length2(a))
OP1("length2(vec3)", 'F', 0, vec3, zcm::length2(a))
OP1("length2(vec4)", 'F', 0, vec4, zcm::length2(a))
OP1("length2(quat)", 'F', 0, quat, zcm::length2(a))
OP3("faceforward(float,float,float)", 'F', 0, float, float, float, zcm::faceforward(a, b, c))
OP3("faceforward(vec2,vec2,vec2)", 'F', 0, vec2, vec2, vec2, zcm::faceforward(a, b, c))
OP3("faceforward(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, zcm::faceforward(a, b, c))
OP3("faceforward(vec4,vec4,vec4)", 'F', 0, vec4, vec4, vec4, zcm::faceforward(a, b, c))
OP2("cross(vec3,vec3)", 'F', 0, vec3, vec3, zcm::cross(a, b))
OP1("normalize(vec2)", 'F', 0, vec2, zcm::normalize(a))
OP1("normalize(vec3)", 'F', 0, vec3, zcm::normalize(a))
OP1("normalize(vec4)", 'F', 0, vec4, zcm::normalize(a))
OP1("normalize(quat)", 'F', 0, quat, zcm::normalize(a))
OP2("reflect(float,float)", 'F', 0, float, float, zcm::reflect(a, b))
OP2("reflect(vec2,vec2)", 'F', 0, vec2, vec2, zcm::reflect(a, b))
OP2("reflect(vec3,vec3)", 'F', 0, vec3, vec3, zcm::reflect(a, b))
OP2("reflect(vec4,vec4)", 'F', 0, vec4, vec4, zcm::reflect(a, b))
OP3("refract(float,float,float)", 'F', 0, float, float, float, zcm::refract(a, b, c))
OP3("refract(vec2,vec2,float)", 'F', 0, vec2, vec2, float, zcm::refract(a, b, c))
OP3("refract(vec3,vec3,float)", 'F', 0, vec3, vec3, float, zcm::refract(a, b, c))
OP3("refract(vec4,vec4,float)", 'F', 0, vec4, vec4, float, zcm::refract(a, b, c))
OP1("orthogonal(vec3)", 'F', 0, vec3, zcm::orthogonal(a))
OP1("orthogonal_branchless(vec3)", 'F', 0, vec3, zcm::orthogonal_branchless(a))
OP1("encode_octahedral(vec3)", 'F', 0, vec3, zcm::encode_octahedral(a))
OP1("decode_octahedral(vec2)", 'F', 0, vec2, zcm::decode_octahedral(a))
OP0("vec4::vec4()", 'F', 0, vec4())
OP2("vec4::operator=(vec4)", 'F', 1, vec4, vec4, (a = b))
OP1("vec4::vec4(float)", 'F', 0, float, vec4(a))
OP1("vec4::vec4(int)", 'F', 0, int, vec4(a))
OP4("vec4::vec4(float,float,float,float)", 'F', 0, float, float, float, float, vec4(a, b, c, d))
OP2("vec4::vec4(vec3,float)", 'F', 0, vec3, float, vec4(a, b))
OP2("vec4::vec4(float,vec3)", 'F', 0, float, vec3, vec4(a, b))
OP2("vec4::vec4(vec2,vec2)", 'F', 0, vec2, vec2, vec4(a, b))
OP3("vec4::vec4(vec2,float,float)", 'F', 0, vec2, float, float, vec4(a, b, c))
OP3("vec4::vec4(float,vec2,float)", 'F', 0, float, vec2, float, vec4(a, b, c))
OP3("vec4::vec4(float,float,vec2)", 'F', 0, float, float, vec2, vec4(a, b, c))
OP2("vec4::operator[](unsigned)", 'X', 0, vec4, unsigned, a[b])
OP2("vec4::operator[](unsigned) const", 'X', 0, vec4, unsigned, kst(a)[b])
OP2("vec4::operator+=(vec4)", 'F', 1, vec4, vec4, (a += b, a))
OP2("vec4::operator-=(vec4)", 'F', 1, vec4, vec4, (a -= b, a))
OP2("vec4::operator*=(vec4)", 'F', 1, vec4, vec4, (a *= b, a))
OP2("vec4::operator/=(vec4)", 'F', 1, vec4, vec4, (a /= b, a))
OP2("vec4::operator+=(float)", 'F', 1, vec4, float, (a += b, a))
OP2("vec4::operator-=(float)", 'F', 1, vec4, float, (a -= b, a))
OP2("vec4::operator*=(float)", 'F', 1, vec4, float, (a *= b, a))
OP2("vec4::operator/=(float)", 'F', 1, vec4, float, (a /= b, a))
OP1("vec4::operator++()", 'I', 1, vec4, ++a)
OP1("vec4::operator++(int) postfix", 'I', 1, vec4, a++)
OP1("vec4::operator--()", 'I', 1, vec4, --a)
OP1("vec4::operator--(int) postfix", 'I', 1, vec4, a--)
OP2("operator==(vec4,vec4)", 'F', 0, vec4, vec4, (a == b))
OP2("operator!=(vec4,vec4)", 'F', 0, vec4, vec4, (a != b))
OP1("operator-(vec4)", 'F', 0, vec4, (-a))
OP1("operator+(vec4)", 'F', 0, vec4, (+a))
OP2("operator+(vec4,vec4)", 'F', 0, vec4, vec4, (a + b))
OP2("operator-(vec4,vec4)", 'F', 0, vec4, vec4, (a - b))
OP2("operator*(vec4,vec4)", 'F', 0, vec4, vec4, (a * b))
OP2("operator/(vec4,vec4)", 'F', 0, vec4, vec4, (a / b))
OP2("operator+(vec4,float)", 'F', 0, vec4, float, (a + b))
OP2("operator-(vec4,float)", 'F', 0, vec4, float, (a - b))
OP2("operator*(vec4,float)", 'F', 0, vec4, float, (a * b))
OP2("operator/(vec4,float)", 'F', 0, vec4, float, (a / b))
OP2("operator+(float,vec4)", 'F', 0, float, vec4, (a + b))
OP2("operator-(float,vec4)", 'F', 0, float, vec4, (a - b))
OP2("operator*(float,vec4)", 'F', 0, float, vec4, (a * b))
OP2("operator/(float,vec4)", 'F', 0, float, vec4, (a / b))
OP0("quat::quat()", 'F', 0, quat())
OP4("quat::quat(float,float,float,float)", 'F', 0, float, float, float, float, quat(a, b, c, d))
OP2("quat::quat(float,vec3)", 'F', 0, float, vec3, quat(a, b))
OP2("quat::quat(vec3,float)", 'F', 0, vec3, float, quat(a, b))
OP5("quat::wxyz(float,float,float,float)", 'F', 0, quat, float, float, float, float, a.wxyz(b, c, d, e))
OP2("quat::quat(vec3,vec3)", 'F', 0, vec3, vec3, quat(a, b))
OP1("quat::quat(vec3)", 'F', 0, vec3, quat(a))
OP2("quat::operator[](unsigned)", 'X', 0, quat, unsigned, a[b])
OP2("quat::operator[](unsigned) const", 'X', 0, quat, unsigned, kst(a)[b])
OP2("quat::operator+=(quat)", 'F', 1, quat, quat, (a += b, a))
OP2("quat::operator-=(quat)", 'F', 1, quat, quat, (a -= b, a))
OP2("quat::operator*=(quat)", 'F', 1, quat, quat, (a *= b, a))
OP2("quat::operator*=(float)", 'F', 1, quat, float, (a *= b, a))
OP2("quat::operator/=(float)", 'F', 1, quat, float, (a /= b, a))
OP2("operator==(quat,quat)", 'F', 0, quat, quat, (a == b))
OP2("operator!=(quat,quat)", 'F', 0, quat, quat, (a != b))
OP2("operator+(quat,quat)", 'F', 0, quat, quat, (a + b))
OP2("operator-(quat,quat)", 'F', 0, quat, quat, (a - b))
OP2("operator*(quat,quat)", 'F', 0, quat, quat, (a * b))
OP1("operator+(quat)", 'F', 0, quat, (+a))
OP1("operator-(quat)", 'F', 0, quat, (-a))
OP2("operator*(quat,float)", 'F', 0, quat, float, (a * b))
OP2("operator*(float,quat)", 'F', 0, float, quat, (a * b))
OP2("operator/(float,quat)", 'F', 0, float, quat, (a / b))
OP2("operator/(quat,float)", 'F', 0, quat, float, (a / b))
OP2("operator*(quat,vec3)", 'F', 0, quat, vec3, (a * b))
OP2("operator*(vec3,quat)", 'F', 0, vec3, quat, (a * b))
OP1("hash(float)", 'F', 0, float, zcm::hash(a))
OP1("hash(bool)", 'F', 0, bool, zcm::hash(a))
OP1("hash(int)", 'F', 0, int, zcm::hash(a))
OP1("hash(unsigned)", 'F', 0, unsigned, zcm::hash(a))
OP1("hash(bvec2)", 'F', 0, bvec2, zcm::hash(a))
OP1("hash(bvec3)", 'F', 0, bvec3, zcm::hash(a))
OP1("hash(bvec4)", 'F', 0, bvec4, zcm::hash(a))
OP1("hash(ivec2)", 'F', 0, ivec2, zcm::hash(a))
OP1("hash(ivec3)", 'F', 0, ivec3, zcm::hash(a))
OP1("hash(ivec4)", 'F', 0, ivec4, zcm::hash(a))
OP1("hash(vec2)", 'F', 0, vec2, zcm::hash(a))
OP1("hash(vec3)", 'F', 0, vec3, zcm::hash(a))
OP1("hash(vec4)", 'F', 0, vec4, zcm::hash(a))
OP1("hash(quat)", 'F', 0, quat, zcm::hash(a))
OP1("hash(mat2)", 'F', 0, mat2, zcm::hash(a))
OP1("hash(mat3)", 'F', 0, mat3, zcm::hash(a))
OP1("hash(mat4)", 'F', 0, mat4, zcm::hash(a))
OP0("ivec2::ivec2()", 'F', 0, ivec2())
OP2("ivec2::operator=(ivec2)", 'F', 1, ivec2, ivec2, (a = b))
OP1("ivec2::ivec2(int)", 'F', 0, int, ivec2(a))
OP2("ivec2::ivec2(int,int)", 'F', 0, int, int, ivec2(a, b))
OP2("ivec2::operator[](unsigned)", 'X', 0, ivec2, unsigned, a[b])
OP2("ivec2::operator[](unsigned) const", 'X', 0, ivec2, unsigned, kst(a)[b])
OP2("ivec2::operator+=(ivec2)", 'I', 1, ivec2, ivec2, (a += b, a))
OP2("ivec2::operator-=(ivec2)", 'I', 1, ivec2, ivec2, (a -= b, a))
OP2("ivec2::operator*=(ivec2)", 'I', 1, ivec2, ivec2, (a *= b, a))
OP2("ivec2::operator/=(ivec2)", 'I', 1, ivec2, ivec2, (a /= b, a))
OP2("ivec2::operator%=(ivec2)", 'I', 1, ivec2, ivec2, (a %= b, a))
OP2("ivec2::operator|=(ivec2)", 'F', 1, ivec2, ivec2, (a |= b, a))
OP2("ivec2::operator&=(ivec2)", 'F', 1, ivec2, ivec2, (a &= b, a))
OP2("ivec2::operator^=(ivec2)", 'F', 1, ivec2, ivec2, (a ^= b, a))
OP2("ivec2::operator>>=(ivec2)", 'S', 1, ivec2, ivec2, (a >>= b, a))
OP2("ivec2::operator<<=(ivec2)", 'S', 1, ivec2, ivec2, (a <<= b, a))
OP2("ivec2::operator+=(int)", 'I', 1, ivec2, int, (a += b, a))
OP2("ivec2::operator-=(int)", 'I', 1, ivec2, int, (a -= b, a))
OP2("ivec2::operator*=(int)", 'I', 1, ivec2, int, (a *= b, a))
OP2("ivec2::operator/=(int)", 'I', 1, ivec2, int, (a /= b, a))
OP2("ivec2::operator%=(int)", 'I', 1, ivec2, int, (a %= b, a))
OP2("ivec2::operator|=(int)", 'F', 1, ivec2, int, (a |= b, a))
OP2("ivec2::operator&=(int)", 'F', 1, ivec2, int, (a &= b, a))
OP2("ivec2::operator^=(int)", 'F', 1, ivec2, int, (a ^= b, a))
OP2("ivec2::operator>>=(int)", 'S', 1, ivec2, int, (a >>= b, a))
OP2("ivec2::operator<<=(int)", 'S', 1, ivec2, int, (a <<= b, a))
OP1("ivec2::operator++()", 'I', 1, ivec2, ++a)
OP1("ivec2::operator--()", 'I', 1, ivec2, --a)
OP1("ivec2::operator++(int) postfix", 'I', 1, ivec2, a++)
OP1("ivec2::operator--(int) postfix", 'I', 1, ivec2, a--)
OP1("ivec2->bvec2", 'F', 0, ivec2, bvec2(a))
OP2("operator==(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a == b))
OP2("operator!=(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a != b))
OP2("operator<(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a < b))
OP2("operator<=(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a <= b))
OP2("operator>(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a > b))
OP2("operator>=(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a >= b))
OP1("operator+(ivec2)", 'I', 0, ivec2, (+a))
OP1("operator-(ivec2)", 'I', 0, ivec2, (-a))
OP2("operator+(ivec2,ivec2)", 'I', 0, ivec2, ivec2, (a + b))
OP2("operator-(ivec2,ivec2)", 'I', 0, ivec2, ivec2, (a - b))
OP2("operator*(ivec2,ivec2)", 'I', 0, ivec2, ivec2, (a * b))
OP2("operator/(ivec2,ivec2)", 'I', 0, ivec2, ivec2, (a / b))
OP2("operator%(ivec2,ivec2)", 'I', 0, ivec2, ivec2, (a % b))
OP2("operator&(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a & b))
OP2("operator|(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a | b))
OP2("operator^(ivec2,ivec2)", 'F', 0, ivec2, ivec2, (a ^ b))
OP2("operator<<(ivec2,ivec2)", 'S', 0, ivec2, ivec2, (a << b))
OP2("operator>>(ivec2,ivec2)", 'S', 0, ivec2, ivec2, (a >> b))
OP2("operator+(ivec2,int)", 'I', 0, ivec2, int, (a + b))
OP2("operator-(ivec2,int)", 'I', 0, ivec2, int, (a - b))
OP2("operator*(ivec2,int)", 'I', 0, ivec2, int, (a * b))
OP2("operator/(ivec2,int)", 'I', 0, ivec2, int, (a / b))
OP2("operator%(ivec2,int)", 'I', 0, ivec2, int, (a % b))
OP2("operator&(ivec2,int)", 'F', 0, ivec2, int, (a & b))
OP2("operator|(ivec2,int)", 'F', 0, ivec2, int, (a | b))
OP2("operator^(ivec2,int)", 'F', 0, ivec2, int, (a ^ b))
OP2("operator<<(ivec2,int)", 'S', 0, ivec2, int, (a << b))
OP2("operator>>(ivec2,int)", 'S', 0, ivec2, int, (a >> b))
OP2("operator+(int,ivec2)", 'I', 0, int, ivec2, (a + b))
OP2("operator-(int,ivec2)", 'I', 0, int, ivec2, (a - b))
OP2("operator*(int,ivec2)", 'I', 0, int, ivec2, (a * b))
OP2("operator/(int,ivec2)", 'I', 0, int, ivec2, (a / b))
OP2("operator%(int,ivec2)", 'I', 0, int, ivec2, (a % b))
OP2("operator&(int,ivec2)", 'F', 0, int, ivec2, (a & b))
OP2("operator|(int,ivec2)", 'F', 0, int, ivec2, (a | b))
OP2("operator^(int,ivec2)", 'F', 0, int, ivec2, (a ^ b))
OP2("operator<<(int,ivec2)", 'S', 0, int, ivec2, (a << b))
OP2("operator>>(int,ivec2)", 'S', 0, int, ivec2, (a >> b))
OP0("ivec3::ivec3()", 'F', 0, ivec3())
OP2("ivec3::operator=(ivec3)", 'F', 1, ivec3, ivec3, (a = b))
OP1("ivec3::ivec3(int)", 'F', 0, int, ivec3(a))
OP3("ivec3::ivec3(int,int,int)", 'F', 0, int, int, int, ivec3(a, b, c))
OP2("ivec3::ivec3(ivec2,int)", 'F', 0, ivec2, int, ivec3(a, b))
OP2("ivec3::ivec3(int,ivec2)", 'F', 0, int, ivec2, ivec3(a, b))
OP2("ivec3::operator[](unsigned)", 'X', 0, ivec3, unsigned, a[b])
OP2("ivec3::operator[](unsigned) const", 'X', 0, ivec3, unsigned, kst(a)[b])
OP1("ivec3->bvec3", 'F', 0, ivec3, bvec3(a))
OP1("ivec3::operator++()", 'I', 1, ivec3, ++a)
OP1("ivec3::operator--()", 'I', 1, ivec3, --a)
OP1("ivec3::operator++(int) postfix", 'I', 1, ivec3, a++)
OP1("ivec3::operator--(int) postfix", 'I', 1, ivec3, a--)
OP2("ivec3::operator+=(ivec3)", 'I', 1, ivec3, ivec3, (a += b, a))
OP2("ivec3::operator-=(ivec3)", 'I', 1, ivec3, ivec3, (a -= b, a))
OP2("ivec3::operator*=(ivec3)", 'I', 1, ivec3, ivec3, (a *= b, a))
OP2("ivec3::operator/=(ivec3)", 'I', 1, ivec3, ivec3, (a /= b, a))
OP2("ivec3::operator%=(ivec3)", 'I', 1, ivec3, ivec3, (a %= b, a))
OP2("ivec3::operator|=(ivec3)", 'F', 1, ivec3, ivec3, (a |= b, a))
OP2("ivec3::operator&=(ivec3)", 'F', 1, ivec3, ivec3, (a &= b, a))
OP2("ivec3::operator^=(ivec3)", 'F', 1, ivec3, ivec3, (a ^= b, a))
OP2("ivec3::operator>>=(ivec3)", 'S', 1, ivec3, ivec3, (a >>= b, a))
OP2("ivec3::operator<<=(ivec3)", 'S', 1, ivec3, ivec3, (a <<= b, a))
OP2("ivec3::operator+=(int)", 'I', 1, ivec3, int, (a += b, a))
OP2("ivec3::operator-=(int)", 'I', 1, ivec3, int, (a -= b, a))
OP2("ivec3::operator*=(int)", 'I', 1, ivec3, int, (a *= b, a))
OP2("ivec3::operator/=(int)", 'I', 1, ivec3, int, (a /= b, a))
OP2("ivec3::operator%=(int)", 'I', 1, ivec3, int, (a %= b, a))
OP2("ivec3::operator|=(int)", 'F', 1, ivec3, int, (a |= b, a))
OP2("ivec3::operator&=(int)", 'F', 1, ivec3, int, (a &= b, a))
OP2("ivec3::operator^=(int)", 'F', 1, ivec3, int, (a ^= b, a))
OP2("ivec3::operator>>=(int)", 'S', 1, ivec3, int, (a >>= b, a))
OP2("ivec3::operator<<=(int)", 'S', 1, ivec3, int, (a <<= b, a))
OP2("operator==(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a == b))
OP2("operator!=(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a != b))
OP2("operator<(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a < b))
OP2("operator<=(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a <= b))
OP2("operator>(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a > b))
OP2("operator>=(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a >= b))
OP1("operator-(ivec3)", 'I', 0, ivec3, (-a))
OP1("operator+(ivec3)", 'I', 0, ivec3, (+a))
OP2("operator+(ivec3,ivec3)", 'I', 0, ivec3, ivec3, (a + b))
OP2("operator-(ivec3,ivec3)", 'I', 0, ivec3, ivec3, (a - b))
OP2("operator*(ivec3,ivec3)", 'I', 0, ivec3, ivec3, (a * b))
OP2("operator/(ivec3,ivec3)", 'I', 0, ivec3, ivec3, (a / b))
OP2("operator%(ivec3,ivec3)", 'I', 0, ivec3, ivec3, (a % b))
OP2("operator&(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a & b))
OP2("operator|(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a | b))
OP2("operator^(ivec3,ivec3)", 'F', 0, ivec3, ivec3, (a ^ b))
OP2("operator<<(ivec3,ivec3)", 'S', 0, ivec3, ivec3, (a << b))
OP2("operator>>(ivec3,ivec3)", 'S', 0, ivec3, ivec3, (a >> b))
OP2("operator+(ivec3,int)", 'I', 0, ivec3, int, (a + b))
OP2("operator-(ivec3,int)", 'I', 0, ivec3, int, (a - b))
OP2("operator*(ivec3,int)", 'I', 0, ivec3, int, (a * b))
OP2("operator/(ivec3,int)", 'I', 0, ivec3, int, (a / b))
OP2("operator%(ivec3,int)", 'I', 0, ivec3, int, (a % b))
OP2("operator&(ivec3,int)", 'F', 0, ivec3, int, (a & b))
OP2("operator|(ivec3,int)", 'F', 0, ivec3, int, (a | b))
OP2("operator^(ivec3,int)", 'F', 0, ivec3, int, (a ^ b))
OP2("operator<<(ivec3,int)", 'S', 0, ivec3, int, (a << b))
OP2("operator>>(ivec3,int)", 'S', 0, ivec3, int, (a >> b))
OP2("operator+(int,ivec3)", 'I', 0, int, ivec3, (a + b))
OP2("operator-(int,ivec3)", 'I', 0, int, ivec3, (a - b))
OP2("operator*(int,ivec3)", 'I', 0, int, ivec3, (a * b))
OP2("operator/(int,ivec3)", 'I', 0, int, ivec3, (a / b))
OP2("operator%(int,ivec3)", 'I', 0, int, ivec3, (a % b))
OP2("operator&(int,ivec3)", 'F', 0, int, ivec3, (a & b))
OP2("operator|(int,ivec3)", 'F', 0, int, ivec3, (a | b))
OP2("operator^(int,ivec3)", 'F', 0, int, ivec3, (a ^ b))
OP2("operator<<(int,ivec3)", 'S', 0, int, ivec3, (a << b))
OP2("operator>>(int,ivec3)", 'S', 0, int, ivec3, (a >> b))
OP0("ivec4::ivec4()", 'F', 0, ivec4())
OP2("ivec4::operator=(ivec4)", 'F', 1, ivec4, ivec4, (a = b))
OP1("ivec4::ivec4(int)", 'F', 0, int, ivec4(a))
OP4("ivec4::ivec4(int,int,int,int)", 'F', 0, int, int, int, int, ivec4(a, b, c, d))
OP2("ivec4::ivec4(ivec3,int)", 'F', 0, ivec3, int, ivec4(a, b))
OP2("ivec4::ivec4(int,ivec3)", 'F', 0, int, ivec3, ivec4(a, b))
OP2("ivec4::ivec4(ivec2,ivec2)", 'F', 0, ivec2, ivec2, ivec4(a, b))
OP3("ivec4::ivec4(ivec2,int,int)", 'F', 0, ivec2, int, int, ivec4(a, b, c))
OP3("ivec4::ivec4(int,ivec2,int)", 'F', 0, int, ivec2, int, ivec4(a, b, c))
OP3("ivec4::ivec4(int,int,ivec2)", 'F', 0, int, int, ivec2, ivec4(a, b, c))
OP2("ivec4::operator[](unsigned)", 'X', 0, ivec4, unsigned, a[b])
OP2("ivec4::operator[](unsigned) const", 'X', 0, ivec4, unsigned, kst(a)[b])
OP1("ivec4->bvec4", 'F', 0, ivec4, bvec4(a))
OP2("ivec4::operator+=(ivec4)", 'I', 1, ivec4, ivec4, (a += b, a))
OP2("ivec4::operator-=(ivec4)", 'I', 1, ivec4, ivec4, (a -= b, a))
OP2("ivec4::operator*=(ivec4)", 'I', 1, ivec4, ivec4, (a *= b, a))
OP2("ivec4::operator/=(ivec4)", 'I', 1, ivec4, ivec4, (a /= b, a))
OP2("ivec4::operator%=(ivec4)", 'I', 1, ivec4, ivec4, (a %= b, a))
OP2("ivec4::operator|=(ivec4)", 'F', 1, ivec4, ivec4, (a |= b, a))
OP2("ivec4::operator&=(ivec4)", 'F', 1, ivec4, ivec4, (a &= b, a))
OP2("ivec4::operator^=(ivec4)", 'F', 1, ivec4, ivec4, (a ^= b, a))
OP2("ivec4::operator>>=(ivec4)", 'S', 1, ivec4, ivec4, (a >>= b, a))
OP2("ivec4::operator<<=(ivec4)", 'S', 1, ivec4, ivec4, (a <<= b, a))
OP2("ivec4::operator+=(int)", 'I', 1, ivec4, int, (a += b, a))
OP2("ivec4::operator-=(int)", 'I', 1, ivec4, int, (a -= b, a))
OP2("ivec4::operator*=(int)", 'I', 1, ivec4, int, (a *= b, a))
OP2("ivec4::operator/=(int)", 'I', 1, ivec4, int, (a /= b, a))
OP2("ivec4::operator%=(int)", 'I', 1, ivec4, int, (a %= b, a))
OP2("ivec4::operator|=(int)", 'F', 1, ivec4, int, (a |= b, a))
OP2("ivec4::operator&=(int)", 'F', 1, ivec4, int, (a &= b, a))
OP2("ivec4::operator^=(int)", 'F', 1, ivec4, int, (a ^= b, a))
OP2("ivec4::operator>>=(int)", 'S', 1, ivec4, int, (a >>= b, a))
OP2("ivec4::operator<<=(int)", 'S', 1, ivec4, int, (a <<= b, a))
OP1("ivec4::operator++()", 'I', 1, ivec4, ++a)
OP1("ivec4::operator++(int) postfix", 'I', 1, ivec4, a++)
OP1("ivec4::operator--()", 'I', 1, ivec4, --a)
OP1("ivec4::operator--(int) postfix", 'I', 1, ivec4, a--)
OP2("operator==(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a == b))
OP2("operator!=(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a != b))
OP2("operator<(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a < b))
OP2("operator<=(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a <= b))
OP2("operator>(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a > b))
OP2("operator>=(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a >= b))
OP1("operator-(ivec4)", 'I', 0, ivec4, (-a))
OP1("operator+(ivec4)", 'I', 0, ivec4, (+a))
OP2("operator+(ivec4,ivec4)", 'I', 0, ivec4, ivec4, (a + b))
OP2("operator-(ivec4,ivec4)", 'I', 0, ivec4, ivec4, (a - b))
OP2("operator*(ivec4,ivec4)", 'I', 0, ivec4, ivec4, (a * b))
OP2("operator/(ivec4,ivec4)", 'I', 0, ivec4, ivec4, (a / b))
OP2("operator%(ivec4,ivec4)", 'I', 0, ivec4, ivec4, (a % b))
OP2("operator&(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a & b))
OP2("operator|(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a | b))
OP2("operator^(ivec4,ivec4)", 'F', 0, ivec4, ivec4, (a ^ b))
OP2("operator<<(ivec4,ivec4)", 'S', 0, ivec4, ivec4, (a << b))
OP2("operator>>(ivec4,ivec4)", 'S', 0, ivec4, ivec4, (a >> b))
OP2("operator+(ivec4,int)", 'I', 0, ivec4, int, (a + b))
OP2("operator-(ivec4,int)", 'I', 0, ivec4, int, (a - b))
OP2("operator*(ivec4,int)", 'I', 0, ivec4, int, (a * b))
OP2("operator/(ivec4,int)", 'I', 0, ivec4, int, (a / b))
OP2("operator%(ivec4,int)", 'I', 0, ivec4, int, (a % b))
OP2("operator&(ivec4,int)", 'F', 0, ivec4, int, (a & b))
OP2("operator|(ivec4,int)", 'F', 0, ivec4, int, (a | b))
OP2("operator^(ivec4,int)", 'F', 0, ivec4, int, (a ^ b))
OP2("operator<<(ivec4,int)", 'S', 0, ivec4, int, (a << b))
OP2("operator>>(ivec4,int)", 'S', 0, ivec4, int, (a >> b))
OP2("operator+(int,ivec4)", 'I', 0, int, ivec4, (a + b))
OP2("operator-(int,ivec4)", 'I', 0, int, ivec4, (a - b))
OP2("operator*(int,ivec4)", 'I', 0, int, ivec4, (a * b))
OP2("operator/(int,ivec4)", 'I', 0, int, ivec4, (a / b))
OP2("operator%(int,ivec4)", 'I', 0, int, ivec4, (a % b))
OP2("operator&(int,ivec4)", 'F', 0, int, ivec4, (a & b))
OP2("operator|(int,ivec4)", 'F', 0, int, ivec4, (a | b))
OP2("operator^(int,ivec4)", 'F', 0, int, ivec4, (a ^ b))
OP2("operator<<(int,ivec4)", 'S', 0, int, ivec4, (a << b))
OP2("operator>>(int,ivec4)", 'S', 0, int, ivec4, (a >> b))
OP0("vec2::vec2()", 'F', 0, vec2())
OP2("vec2::operator=(vec2)", 'F', 1, vec2, vec2, (a = b))
OP1("vec2::vec2(float)", 'F', 0, float, vec2(a))
OP1("vec2::vec2(int)", 'F', 0, int, vec2(a))
OP2("vec2::vec2(float,float)", 'F', 0, float, float, vec2(a, b))
OP2("vec2::operator[](unsigned)", 'X', 0, vec2, unsigned, a[b])
OP2("vec2::operator[](unsigned) const", 'X', 0, vec2, unsigned, kst(a)[b])
OP2("vec2::operator+=(vec2)", 'F', 1, vec2, vec2, (a += b, a))
OP2("vec2::operator-=(vec2)", 'F', 1, vec2, vec2, (a -= b, a))
OP2("vec2::operator*=(vec2)", 'F', 1, vec2, vec2, (a *= b, a))
OP2("vec2::operator/=(vec2)", 'F', 1, vec2, vec2, (a /= b, a))
OP2("vec2::operator+=(float)", 'F', 1, vec2, float, (a += b, a))
OP2("vec2::operator-=(float)", 'F', 1, vec2, float, (a -= b, a))
OP2("vec2::operator*=(float)", 'F', 1, vec2, float, (a *= b, a))
OP2("vec2::operator/=(float)", 'F', 1, vec2, float, (a /= b, a))
OP1("vec2::operator++()", 'I', 1, vec2, ++a)
OP1("vec2::operator++(int) postfix", 'I', 1, vec2, a++)
OP1("vec2::operator--()", 'I', 1, vec2, --a)
OP1("vec2::operator--(int) postfix", 'I', 1, vec2, a--)
OP2("operator==(vec2,vec2)", 'F', 0, vec2, vec2, (a == b))
OP2("operator!=(vec2,vec2)", 'F', 0, vec2, vec2, (a != b))
OP1("operator+(vec2)", 'F', 0, vec2, (+a))
OP1("operator-(vec2)", 'F', 0, vec2, (-a))
OP2("operator+(vec2,vec2)", 'F', 0, vec2, vec2, (a + b))
OP2("operator-(vec2,vec2)", 'F', 0, vec2, vec2, (a - b))
OP2("operator*(vec2,vec2)", 'F', 0, vec2, vec2, (a * b))
OP2("operator/(vec2,vec2)", 'F', 0, vec2, vec2, (a / b))
OP2("operator+(vec2,float)", 'F', 0, vec2, float, (a + b))
OP2("operator-(vec2,float)", 'F', 0, vec2, float, (a - b))
OP2("operator*(vec2,float)", 'F', 0, vec2, float, (a * b))
OP2("operator/(vec2,float)", 'F', 0, vec2, float, (a / b))
OP2("operator+(float,vec2)", 'F', 0, float, vec2, (a + b))
OP2("operator-(float,vec2)", 'F', 0, float, vec2, (a - b))
OP2("operator*(float,vec2)", 'F', 0, float, vec2, (a * b))
OP2("operator/(float,vec2)", 'F', 0, float, vec2, (a / b))
OP0("mat2::mat2()", 'F', 0, mat2())
OP1("mat2::mat2(float)", 'F', 0, float, mat2(a))
OP4("mat2::mat2(float,float,float,float)", 'F', 0, float, float, float, float, mat2(a, b, c, d))
OP2("mat2::mat2(vec2,vec2)", 'F', 0, vec2, vec2, mat2(a, b))
OP2("mat2::operator[](unsigned)", 'X', 0, mat2, unsigned, a[b])
OP2("mat2::operator[](unsigned) const", 'X', 0, mat2, unsigned, kst(a)[b])
OP2("mat2::operator+=(mat2)", 'F', 1, mat2, mat2, (a += b, a))
OP2("mat2::operator-=(mat2)", 'F', 1, mat2, mat2, (a -= b, a))
OP2("mat2::operator*=(mat2)", 'F', 1, mat2, mat2, (a *= b, a))
OP2("mat2::operator/=(mat2)", 'F', 1, mat2, mat2, (a /= b, a))
OP1("operator-(mat2)", 'F', 0, mat2, (-a))
OP1("operator+(mat2)", 'F', 0, mat2, (+a))
OP2("operator==(mat2,mat2)", 'F', 0, mat2, mat2, (a == b))
OP2("operator!=(mat2,mat2)", 'F', 0, mat2, mat2, (a != b))
OP2("operator+(mat2,mat2)", 'F', 0, mat2, mat2, (a + b))
OP2("operator-(mat2,mat2)", 'F', 0, mat2, mat2, (a - b))
OP2("operator*(mat2,mat2)", 'F', 0, mat2, mat2, (a * b))
OP2("operator/(mat2,mat2)", 'F', 0, mat2, mat2, (a / b))
OP2("operator*(mat2,float)", 'F', 0, mat2, float, (a * b))
OP2("operator/(mat2,float)", 'F', 0, mat2, float, (a / b))
OP2("operator*(mat2,vec2)", 'F', 0, mat2, vec2, (a * b))
OP2("operator*(vec2,mat2)", 'F', 0, vec2, mat2, (a * b))
OP2("operator/(mat2,vec2)", 'F', 0, mat2, vec2, (a / b))
OP2("operator/(vec2,mat2)", 'F', 0, vec2, mat2, (a / b))
OP2("operator*(float,mat2)", 'F', 0, float, mat2, (a * b))
OP2("operator/(float,mat2)", 'F', 0, float, mat2, (a / b))
OP0("vec3::vec3()", 'F', 0, vec3())
OP2("vec3::operator=(vec3)", 'F', 1, vec3, vec3, (a = b))
OP1("vec3::vec3(float)", 'F', 0, float, vec3(a))
OP1("vec3::vec3(int)", 'F', 0, int, vec3(a))
OP3("vec3::vec3(float,float,float)", 'F', 0, float, float, float, vec3(a, b, c))
OP2("vec3::vec3(vec2,float)", 'F', 0, vec2, float, vec3(a, b))
OP2("vec3::vec3(float,vec2)", 'F', 0, float, vec2, vec3(a, b))
OP2("vec3::operator[](unsigned)", 'X', 0, vec3, unsigned, a[b])
OP2("vec3::operator[](unsigned) const", 'X', 0, vec3, unsigned, kst(a)[b])
OP2("vec3::operator+=(vec3)", 'F', 1, vec3, vec3, (a += b, a))
OP2("vec3::operator-=(vec3)", 'F', 1, vec3, vec3, (a -= b, a))
OP2("vec3::operator*=(vec3)", 'F', 1, vec3, vec3, (a *= b, a))
OP2("vec3::operator/=(vec3)", 'F', 1, vec3, vec3, (a /= b, a))
OP2("vec3::operator+=(float)", 'F', 1, vec3, float, (a += b, a))
OP2("vec3::operator-=(float)", 'F', 1, vec3, float, (a -= b, a))
OP2("vec3::operator*=(float)", 'F', 1, vec3, float, (a *= b, a))
OP2("vec3::operator/=(float)", 'F', 1, vec3, float, (a /= b, a))
OP1("vec3::operator++()", 'I', 1, vec3, ++a)
OP1("vec3::operator++(int) postfix", 'I', 1, vec3, a++)
OP1("vec3::operator--()", 'I', 1, vec3, --a)
OP1("vec3::operator--(int) postfix", 'I', 1, vec3, a--)
OP2("operator==(vec3,vec3)", 'F', 0, vec3, vec3, (a == b))
OP2("operator!=(vec3,vec3)", 'F', 0, vec3, vec3, (a != b))
OP1("operator-(vec3)", 'F', 0, vec3, (-a))
OP1("operator+(vec3)", 'F', 0, vec3, (+a))
OP2("operator+(vec3,vec3)", 'F', 0, vec3, vec3, (a + b))
OP2("operator-(vec3,vec3)", 'F', 0, vec3, vec3, (a - b))
OP2("operator*(vec3,vec3)", 'F', 0, vec3, vec3, (a * b))
OP2("operator/(vec3,vec3)", 'F', 0, vec3, vec3, (a / b))
OP2("operator+(vec3,float)", 'F', 0, vec3, float, (a + b))
OP2("operator-(vec3,float)", 'F', 0, vec3, float, (a - b))
OP2("operator*(vec3,float)", 'F', 0, vec3, float, (a * b))
OP2("operator/(vec3,float)", 'F', 0, vec3, float, (a / b))
OP2("operator+(float,vec3)", 'F', 0, float, vec3, (a + b))
OP2("operator-(float,vec3)", 'F', 0, float, vec3, (a - b))
OP2("operator*(float,vec3)", 'F', 0, float, vec3, (a * b))
OP2("operator/(float,vec3)", 'F', 0, float, vec3, (a / b))
OP0("mat3::mat3()", 'F', 0, mat3())
OP1("mat3::mat3(float)", 'F', 0, float, mat3(a))
OP1("mat3::mat3(mat2)", 'F', 0, mat2, mat3(a))
OP3("mat3::mat3(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, mat3(a, b, c))
OP9("mat3::mat3(float,float,float,float,float,float,float,float,float)", 'F', 0, float, float, float, float, float, float, float, float, float, mat3(a, b, c, d, e, f, g, h, i))
OP2("mat3::operator[](unsigned)", 'X', 0, mat3, unsigned, a[b])
OP2("mat3::operator[](unsigned) const", 'X', 0, mat3, unsigned, kst(a)[b])
OP2("mat3::operator+=(mat3)", 'F', 1, mat3, mat3, (a += b, a))
OP2("mat3::operator-=(mat3)", 'F', 1, mat3, mat3, (a -= b, a))
OP2("mat3::operator*=(mat3)", 'F', 1, mat3, mat3, (a *= b, a))
OP2("mat3::operator/=(mat3)", 'F', 1, mat3, mat3, (a /= b, a))
OP1("mat3->mat2", 'F', 0, mat3, mat2(a))
OP1("operator-(mat3)", 'F', 0, mat3, (-a))
OP1("operator+(mat3)", 'F', 0, mat3, (+a))
OP2("operator==(mat3,mat3)", 'F', 0, mat3, mat3, (a == b))
OP2("operator!=(mat3,mat3)", 'F', 0, mat3, mat3, (a != b))
OP2("operator+(mat3,mat3)", 'F', 0, mat3, mat3, (a + b))
OP2("operator-(mat3,mat3)", 'F', 0, mat3, mat3, (a - b))
OP2("operator*(mat3,mat3)", 'F', 0, mat3, mat3, (a * b))
OP2("operator/(mat3,mat3)", 'F', 0, mat3, mat3, (a / b))
OP2("operator*(mat3,float)", 'F', 0, mat3, float, (a * b))
OP2("operator/(mat3,float)", 'F', 0, mat3, float, (a / b))
OP2("operator*(float,mat3)", 'F', 0, float, mat3, (a * b))
OP2("operator/(float,mat3)", 'F', 0, float, mat3, (a / b))
OP2("operator*(mat3,vec3)", 'F', 0, mat3, vec3, (a * b))
OP2("operator*(vec3,mat3)", 'F', 0, vec3, mat3, (a * b))
OP2("operator/(mat3,vec3)", 'F', 0, mat3, vec3, (a / b))
OP2("operator/(vec3,mat3)", 'F', 0, vec3, mat3, (a / b))
OP0("mat4::mat4()", 'F', 0, mat4())
OP1("mat4::mat4(float)", 'F', 0, float, mat4(a))
OP1("mat4::mat4(mat3)", 'F', 0, mat3, mat4(a))
OP4("mat4::mat4(vec4,vec4,vec4,vec4)", 'F', 0, vec4, vec4, vec4, vec4, mat4(a, b, c, d))
OP16("mat4::mat4(float,float,float,float,float,float,float,float,float,float,float,float,float,float,float,float)", 'F', 0, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, float, mat4(a, b, c, d, e, f, g, h, i, j, k, l_, m, n, o_, p))
OP2("mat4::operator+=(mat4)", 'F', 1, mat4, mat4, (a += b, a))
OP2("mat4::operator-=(mat4)", 'F', 1, mat4, mat4, (a -= b, a))
OP2("mat4::operator*=(mat4)", 'F', 1, mat4, mat4, (a *= b, a))
OP2("mat4::operator/=(mat4)", 'F', 1, mat4, mat4, (a /= b, a))
OP2("mat4::operator[](unsigned)", 'X', 0, mat4, unsigned, a[b])
OP2("mat4::operator[](unsigned) const", 'X', 0, mat4, unsigned, kst(a)[b])
OP1("mat4->mat3", 'F', 0, mat4, mat3(a))
OP1("operator-(mat4)", 'F', 0, mat4, (-a))
OP1("operator+(mat4)", 'F', 0, mat4, (+a))
OP2("operator==(mat4,mat4)", 'F', 0, mat4, mat4, (a == b))
OP2("operator!=(mat4,mat4)", 'F', 0, mat4, mat4, (a != b))
OP2("operator+(mat4,mat4)", 'F', 0, mat4, mat4, (a + b))
OP2("operator-(mat4,mat4)", 'F', 0, mat4, mat4, (a - b))
OP2("operator*(mat4,mat4)", 'F', 0, mat4, mat4, (a * b))
OP2("operator/(mat4,mat4)", 'F', 0, mat4, mat4, (a / b))
OP2("operator*(mat4,float)", 'F', 0, mat4, float, (a * b))
OP2("operator/(mat4,float)", 'F', 0, mat4, float, (a / b))
OP2("operator*(float,mat4)", 'F', 0, float, mat4, (a * b))
OP2("operator/(float,mat4)", 'F', 0, float, mat4, (a / b))
OP2("operator*(mat4,vec4)", 'F', 0, mat4, vec4, (a * b))
OP2("operator*(vec4,mat4)", 'F', 0, vec4, mat4, (a * b))
OP2("operator/(mat4,vec4)", 'F', 0, mat4, vec4, (a / b))
OP2("operator/(vec4,mat4)", 'F', 0, vec4, mat4, (a / b))
OP2("matrixCompMult(mat2,mat2)", 'F', 0, mat2, mat2, zcm::matrixCompMult(a, b))
OP2("matrixCompMult(mat3,mat3)", 'F', 0, mat3, mat3, zcm::matrixCompMult(a, b))
OP2("matrixCompMult(mat4,mat4)", 'F', 0, mat4, mat4, zcm::matrixCompMult(a, b))
OP1("transpose(mat2)", 'F', 0, mat2, zcm::transpose(a))
OP1("transpose(mat3)", 'F', 0, mat3, zcm::transpose(a))
OP1("transpose(mat4)", 'F', 0, mat4, zcm::transpose(a))
OP1("determinant(mat2)", 'F', 0, mat2, zcm::determinant(a))
OP1("determinant(mat3)", 'F', 0, mat3, zcm::determinant(a))
OP1("determinant(mat4)", 'F', 0, mat4, zcm::determinant(a))
OP1("inverse(mat2)", 'F', 0, mat2, zcm::inverse(a))
OP1("inverse(mat3)", 'F', 0, mat3, zcm::inverse(a))
OP1("inverse(mat4)", 'F', 0, mat4, zcm::inverse(a))
OP1("adjugate(mat2)", 'F', 0, mat2, zcm::adjugate(a))
OP1("adjugate(mat3)", 'F', 0, mat3, zcm::adjugate(a))
OP1("adjugate(mat4)", 'F', 0, mat4, zcm::adjugate(a))
OP1("inverseTranspose(mat2)", 'F', 0, mat2, zcm::inverseTranspose(a))
OP1("inverseTranspose(mat3)", 'F', 0, mat3, zcm::inverseTranspose(a))
OP1("inverseTranspose(mat4)", 'F', 0, mat4, zcm::inverseTranspose(a))
OP1("adjugateTranspose(mat2)", 'F', 0, mat2, zcm::adjugateTranspose(a))
OP1("adjugateTranspose(mat3)", 'F', 0, mat3, zcm::adjugateTranspose(a))
OP1("adjugateTranspose(mat4)", 'F', 0, mat4, zcm::adjugateTranspose(a))
OP3("lookAtLH(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, zcm::lookAtLH(a, b, c))
OP3("lookAtRH(vec3,vec3,vec3)", 'F', 0, vec3, vec3, vec3, zcm::lookAtRH(a, b, c))
OP4("ortho(float,float,float,float)", 'F', 0, float, float, float, float, zcm::ortho(a, b, c, d))
OP6("orthoLH_ZO(float,float,float,float,float,float)", 'F', 0, float, float, float, float, float, float, zcm::orthoLH_ZO(a, b, c, d, e, f))
OP6("orthoRH_ZO(float,float,float,float,float,float)", 'F', 0, float, float, float, float, float, float, zcm::orthoRH_ZO(a, b, c, d, e, f))
OP4("perspectiveRH_ZO(float,float,float,float)", 'P', 0, float, float, float, float, zcm::perspectiveRH_ZO(a, b, c, d))
OP4("perspectiveLH_ZO(float,float,float,float)", 'P', 0, float, float, float, float, zcm::perspectiveLH_ZO(a, b, c, d))
OP6("orthoLH_NO(float,float,float,float,float,float)", 'F', 0, float, float, float, float, float, float, zcm::orthoLH_NO(a, b, c, d, e, f))
OP6("orthoRH_NO(float,float,float,float,float,float)", 'F', 0, float, float, float, float, float, float, zcm::orthoRH_NO(a, b, c, d, e, f))
OP4("perspectiveRH_NO(float,float,float,float)", 'P', 0, float, float, float, float, zcm::perspectiveRH_NO(a, b, c, d))
OP4("perspectiveLH_NO(float,float,float,float)", 'P', 0, float, float, float, float, zcm::perspectiveLH_NO(a, b, c, d))
OP3("rotate(mat4,float,vec3)", 'F', 0, mat4, float, vec3, zcm::rotate(a, b, c))
OP2("scale(mat4,vec3)", 'F', 0, mat4, vec3, zcm::scale(a, b))
OP2("translate(mat4,vec3)", 'F', 0, mat4, vec3, zcm::translate(a, b))
OP1("conjugate(quat)", 'F', 0, quat, zcm::conjugate(a))
OP1("inverse(quat)", 'F', 0, quat, zcm::inverse(a))
OP3("lerp(quat,quat,float)", 'T', 0, quat, quat, float, zcm::lerp(a, b, c))
OP3("nlerp(quat,quat,float)", 'T', 0, quat, quat, float, zcm::nlerp(a, b, c))
OP3("slerp(quat,quat,float)", 'T', 0, quat, quat, float, zcm::slerp(a, b, c))
OP1("axis(quat)", 'F', 0, quat, zcm::axis(a))
OP1("angle(quat)", 'F', 0, quat, zcm::angle(a))
OP2("angleAxis(float,vec3)", 'F', 0, float, vec3, zcm::angleAxis(a, b))
OP3("rotate(quat,float,vec3)", 'F', 0, quat, float, vec3, zcm::rotate(a, b, c))
OP1("eulerAngles(quat)", 'F', 0, quat, zcm::eulerAngles(a))
OP1("pitch(quat)", 'F', 0, quat, zcm::pitch(a))
OP1("yaw(quat)", 'F', 0, quat, zcm::yaw(a))
OP1("roll(quat)", 'F', 0, quat, zcm::roll(a))
OP1("mat3_cast(quat)", 'F', 0, quat, zcm::mat3_cast(a))
OP1("mat4_cast(quat)", 'F', 0, quat, zcm::mat4_cast(a))
OP1("quat_cast(mat3)", 'F', 0, mat3, zcm::quat_cast(a))
OP1("quat_cast(mat4)", 'F', 0, mat4, zcm::quat_cast(a))
OP2("quatLookAtLH(vec3,vec3)", 'F', 0, vec3, vec3, zcm::quatLookAtLH(a, b))
OP2("quatLookAtRH(vec3,vec3)", 'F', 0, vec3, vec3, zcm::quatLookAtRH(a, b))
OP1("make_vec2", 'F', 0, vec2, zcm::make_vec2((const float*)(const void*)&a))
OP1("make_vec3", 'F', 0, vec3, zcm::make_vec3((const float*)(const void*)&a))
OP1("make_vec4", 'F', 0, vec4, zcm::make_vec4((const float*)(const void*)&a))
OP1("make_quat", 'F', 0, quat, zcm::make_quat((const float*)(const void*)&a))
OP1("make_mat2", 'F', 0, mat2, zcm::make_mat2((const float*)(const void*)&a))
OP1("make_mat3", 'F', 0, mat3, zcm::make_mat3((const float*)(const void*)&a))
OP1("make_mat4", 'F', 0, mat4, zcm::make_mat4((const float*)(const void*)&a))
OP1("make_ivec2", 'F', 0, ivec2, zcm::make_ivec2((const int32_t*)(const void*)&a))
OP1("make_ivec3", 'F', 0, ivec3, zcm::make_ivec3((const int32_t*)(const void*)&a))
OP1("make_ivec4", 'F', 0, ivec4, zcm::make_ivec4((const int32_t*)(const void*)&a))
OP1("make_bvec2", 'F', 0, bvec2, zcm::make_bvec2((const bool*)(const void*)&a))
OP1("make_bvec3", 'F', 0, bvec3, zcm::make_bvec3((const bool*)(const void*)&a))
OP1("make_bvec4", 'F', 0, bvec4, zcm::make_bvec4((const bool*)(const void*)&a))
OP1("value_ptr(vec2)", 'F', 0, vec2, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const vec2)", 'F', 0, vec2, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<vec2>", 'F', 0, vec2, std::hash<vec2>()(a))
OP1("value_ptr(vec3)", 'F', 0, vec3, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const vec3)", 'F', 0, vec3, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<vec3>", 'F', 0, vec3, std::hash<vec3>()(a))
OP1("value_ptr(vec4)", 'F', 0, vec4, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const vec4)", 'F', 0, vec4, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<vec4>", 'F', 0, vec4, std::hash<vec4>()(a))
OP1("value_ptr(quat)", 'F', 0, quat, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const quat)", 'F', 0, quat, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<quat>", 'F', 0, quat, std::hash<quat>()(a))
OP1("value_ptr(mat2)", 'F', 0, mat2, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const mat2)", 'F', 0, mat2, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<mat2>", 'F', 0, mat2, std::hash<mat2>()(a))
OP1("value_ptr(mat3)", 'F', 0, mat3, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const mat3)", 'F', 0, mat3, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<mat3>", 'F', 0, mat3, std::hash<mat3>()(a))
OP1("value_ptr(mat4)", 'F', 0, mat4, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const mat4)", 'F', 0, mat4, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<mat4>", 'F', 0, mat4, std::hash<mat4>()(a))
OP1("value_ptr(bvec2)", 'F', 0, bvec2, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const bvec2)", 'F', 0, bvec2, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<bvec2>", 'F', 0, bvec2, std::hash<bvec2>()(a))
OP1("value_ptr(bvec3)", 'F', 0, bvec3, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const bvec3)", 'F', 0, bvec3, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<bvec3>", 'F', 0, bvec3, std::hash<bvec3>()(a))
OP1("value_ptr(bvec4)", 'F', 0, bvec4, int(bytes(*zcm::value_ptr(a)) - bytes(a)))
OP1("value_ptr(const bvec4)", 'F', 0, bvec4, int(bytes(*zcm::value_ptr(kst(a))) - bytes(a)))
OP1("std::hash<bvec4>", 'F', 0, bvec4, std::hash<bvec4>()(a))
OP1("std::hash<ivec2>", 'F', 0, ivec2, std::hash<ivec2>()(a))
OP1("std::hash<ivec3>", 'F', 0, ivec3, std::hash<ivec3>()(a))
OP1("std::hash<ivec4>", 'F', 0, ivec4, std::hash<ivec4>()(a))
OP4("decompose_orthogonal", 'F', 14, mat4, vec3, quat, vec3, (zcm::decompose_orthogonal(a, b, c, d), 0))
OP0("layout of vec2", 'F', 0, int(sizeof(vec2) * 64 + alignof(vec2)))
OP1("copy vec2", 'F', 0, vec2, vec2(a))
OP2("assign vec2", 'F', 1, vec2, vec2, (a = b, 0))
OP0("layout of vec3", 'F', 0, int(sizeof(vec3) * 64 + alignof(vec3)))
OP1("copy vec3", 'F', 0, vec3, vec3(a))
OP2("assign vec3", 'F', 1, vec3, vec3, (a = b, 0))
OP0("layout of vec4", 'F', 0, int(sizeof(vec4) * 64 + alignof(vec4)))
OP1("copy vec4", 'F', 0, vec4, vec4(a))
OP2("assign vec4", 'F', 1, vec4, vec4, (a = b, 0))
OP0("layout of quat", 'F', 0, int(sizeof(quat) * 64 + alignof(quat)))
OP1("copy quat", 'F', 0, quat, quat(a))
OP2("assign quat", 'F', 1, quat, quat, (a = b, 0))
OP0("layout of mat2", 'F', 0, int(sizeof(mat2) * 64 + alignof(mat2)))
OP1("copy mat2", 'F', 0, mat2, mat2(a))
OP2("assign mat2", 'F', 1, mat2, mat2, (a = b, 0))
OP0("layout of mat3", 'F', 0, int(sizeof(mat3) * 64 + alignof(mat3)))
OP1("copy mat3", 'F', 0, mat3, mat3(a))
OP2("assign mat3", 'F', 1, mat3, mat3, (a = b, 0))
OP0("layout of mat4", 'F', 0, int(sizeof(mat4) * 64 + alignof(mat4)))
OP1("copy mat4", 'F', 0, mat4, mat4(a))
OP2("assign mat4", 'F', 1, mat4, mat4, (a = b, 0))
OP0("layout of bvec2", 'F', 0, int(sizeof(bvec2) * 64 + alignof(bvec2)))
OP1("copy bvec2", 'F', 0, bvec2, bvec2(a))
OP2("assign bvec2", 'F', 1, bvec2, bvec2, (a = b, 0))
OP0("layout of bvec3", 'F', 0, int(sizeof(bvec3) * 64 + alignof(bvec3)))
OP1("copy bvec3", 'F', 0, bvec3, bvec3(a))
OP2("assign bvec3", 'F', 1, bvec3, bvec3, (a = b, 0))
OP0("layout of bvec4", 'F', 0, int(sizeof(bvec4) * 64 + alignof(bvec4)))
OP1("copy bvec4", 'F', 0, bvec4, bvec4(a))
OP2("assign bvec4", 'F', 1, bvec4, bvec4, (a = b, 0))
OP0("layout of ivec2", 'F', 0, int(sizeof(ivec2) * 64 + alignof(ivec2)))
OP1("copy ivec2", 'F', 0, ivec2, ivec2(a))
OP2("assign ivec2", 'F', 1, ivec2, ivec2, (a = b, 0))
OP0("layout of ivec3", 'F', 0, int(sizeof(ivec3) * 64 + alignof(ivec3)))
OP1("copy ivec3", 'F', 0, ivec3, ivec3(a))
OP2("assign ivec3", 'F', 1, ivec3, ivec3, (a = b, 0))
OP0("layout of ivec4", 'F', 0, int(sizeof(ivec4) * 64 + alignof(ivec4)))
OP1("copy ivec4", 'F', 0, ivec4, ivec4(a))
OP2("assign ivec4", 'F', 1, ivec4, ivec4, (a = b, 0))
OP1("vec2.x", 'F', 0, vec2, float(a.x))
OP2("vec2.x =", 'F', 1, vec2, float, (a.x = b, 0))
OP1("vec2.y", 'F', 0, vec2, float(a.y))
OP2("vec2.y =", 'F', 1, vec2, float, (a.y = b, 0))
OP1("vec3.x", 'F', 0, vec3, float(a.x))
OP2("vec3.x =", 'F', 1, vec3, float, (a.x = b, 0))
OP1("vec3.y", 'F', 0, vec3, float(a.y))
OP2("vec3.y =", 'F', 1, vec3, float, (a.y = b, 0))
OP1("vec3.z", 'F', 0, vec3, float(a.z))
OP2("vec3.z =", 'F', 1, vec3, float, (a.z = b, 0))
OP1("vec4.x", 'F', 0, vec4, float(a.x))
OP2("vec4.x =", 'F', 1, vec4, float, (a.x = b, 0))
OP1("vec4.y", 'F', 0, vec4, float(a.y))
OP2("vec4.y =", 'F', 1, vec4, float, (a.y = b, 0))
OP1("vec4.z", 'F', 0, vec4, float(a.z))
OP2("vec4.z =", 'F', 1, vec4, float, (a.z = b, 0))
OP1("vec4.w", 'F', 0, vec4, float(a.w))
OP2("vec4.w =", 'F', 1, vec4, float, (a.w = b, 0))
OP1("quat.x", 'F', 0, quat, float(a.x))
OP2("quat.x =", 'F', 1, quat, float, (a.x = b, 0))
OP1("quat.y", 'F', 0, quat, float(a.y))
OP2("quat.y =", 'F', 1, quat, float, (a.y = b, 0))
OP1("quat.z", 'F', 0, quat, float(a.z))
OP2("quat.z =", 'F', 1, quat, float, (a.z = b, 0))
OP1("quat.w", 'F', 0, quat, float(a.w))
OP2("quat.w =", 'F', 1, quat, float, (a.w = b, 0))
OP1("ivec2.x", 'F', 0, ivec2, int(a.x))
OP2("ivec2.x =", 'F', 1, ivec2, int, (a.x = b, 0))
OP1("ivec2.y", 'F', 0, ivec2, int(a.y))
OP2("ivec2.y =", 'F', 1, ivec2, int, (a.y = b, 0))
OP1("ivec3.x", 'F', 0, ivec3, int(a.x))
OP2("ivec3.x =", 'F', 1, ivec3, int, (a.x = b, 0))
OP1("ivec3.y", 'F', 0, ivec3, int(a.y))
OP2("ivec3.y =", 'F', 1, ivec3, int, (a.y = b, 0))
OP1("ivec3.z", 'F', 0, ivec3, int(a.z))
OP2("ivec3.z =", 'F', 1, ivec3, int, (a.z = b, 0))
OP1("ivec4.x", 'F', 0, ivec4, int(a.x))
OP2("ivec4.x =", 'F', 1, ivec4, int, (a.x = b, 0))
OP1("ivec4.y", 'F', 0, ivec4, int(a.y))
OP2("ivec4.y =", 'F', 1, ivec4, int, (a.y = b, 0))
OP1("ivec4.z", 'F', 0, ivec4, int(a.z))
OP2("ivec4.z =", 'F', 1, ivec4, int, (a.z = b, 0))
OP1("ivec4.w", 'F', 0, ivec4, int(a.w))
OP2("ivec4.w =", 'F', 1, ivec4, int, (a.w = b, 0))
OP1("bvec2.x", 'F', 0, bvec2, bool(a.x))
OP2("bvec2.x =", 'F', 1, bvec2, bool, (a.x = b, 0))
OP1("bvec2.y", 'F', 0, bvec2, bool(a.y))
OP2("bvec2.y =", 'F', 1, bvec2, bool, (a.y = b, 0))
OP1("bvec3.x", 'F', 0, bvec3, bool(a.x))
OP2("bvec3.x =", 'F', 1, bvec3, bool, (a.x = b, 0))
OP1("bvec3.y", 'F', 0, bvec3, bool(a.y))
OP2("bvec3.y =", 'F', 1, bvec3, bool, (a.y = b, 0))
OP1("bvec3.z", 'F', 0, bvec3, bool(a.z))
OP2("bvec3.z =", 'F', 1, bvec3, bool, (a.z = b, 0))
OP1("bvec4.x", 'F', 0, bvec4, bool(a.x))
OP2("bvec4.x =", 'F', 1, bvec4, bool, (a.x = b, 0))
OP1("bvec4.y", 'F', 0, bvec4, bool(a.y))
OP2("bvec4.y =", 'F', 1, bvec4, bool, (a.y = b, 0))
OP1("bvec4.z", 'F', 0, bvec4, bool(a.z))
OP2("bvec4.z =", 'F', 1, bvec4, bool, (a.z = b, 0))
OP1("bvec4.w", 'F', 0, bvec4, bool(a.w))
OP2("bvec4.w =", 'F', 1, bvec4, bool, (a.w = b, 0))
OP2("vec2.x +=", 'F', 1, vec2, float, (a.x += b, 0))
OP2("vec2.x -=", 'F', 1, vec2, float, (a.x -= b, 0))
OP2("vec2.x *=", 'F', 1, vec2, float, (a.x *= b, 0))
OP2("vec2.x /=", 'F', 1, vec2, float, (a.x /= b, 0))
OP1("++vec2.x", 'I', 1, vec2, (++a.x, 0))
OP1("vec2.x++", 'I', 1, vec2, float(a.x++))
OP1("--vec2.x", 'I', 1, vec2, (--a.x, 0))
OP1("vec2.x--", 'I', 1, vec2, float(a.x--))
OP2("vec2.y +=", 'F', 1, vec2, float, (a.y += b, 0))
OP2("vec2.y -=", 'F', 1, vec2, float, (a.y -= b, 0))
OP2("vec2.y *=", 'F', 1, vec2, float, (a.y *= b, 0))
OP2("vec2.y /=", 'F', 1, vec2, float, (a.y /= b, 0))
OP1("++vec2.y", 'I', 1, vec2, (++a.y, 0))
OP1("vec2.y++", 'I', 1, vec2, float(a.y++))
OP1("--vec2.y", 'I', 1, vec2, (--a.y, 0))
OP1("vec2.y--", 'I', 1, vec2, float(a.y--))
OP2("vec3.x +=", 'F', 1, vec3, float, (a.x += b, 0))
OP2("vec3.x -=", 'F', 1, vec3, float, (a.x -= b, 0))
OP2("vec3.x *=", 'F', 1, vec3, float, (a.x *= b, 0))
OP2("vec3.x /=", 'F', 1, vec3, float, (a.x /= b, 0))
OP1("++vec3.x", 'I', 1, vec3, (++a.x, 0))
OP1("vec3.x++", 'I', 1, vec3, float(a.x++))
OP1("--vec3.x", 'I', 1, vec3, (--a.x, 0))
OP1("vec3.x--", 'I', 1, vec3, float(a.x--))
OP2("vec3.y +=", 'F', 1, vec3, float, (a.y += b, 0))
OP2("vec3.y -=", 'F', 1, vec3, float, (a.y -= b, 0))
OP2("vec3.y *=", 'F', 1, vec3, float, (a.y *= b, 0))
OP2("vec3.y /=", 'F', 1, vec3, float, (a.y /= b, 0))
OP1("++vec3.y", 'I', 1, vec3, (++a.y, 0))
OP1("vec3.y++", 'I', 1, vec3, float(a.y++))
OP1("--vec3.y", 'I', 1, vec3, (--a.y, 0))
OP1("vec3.y--", 'I', 1, vec3, float(a.y--))
OP2("vec3.z +=", 'F', 1, vec3, float, (a.z += b, 0))
OP2("vec3.z -=", 'F', 1, vec3, float, (a.z -= b, 0))
OP2("vec3.z *=", 'F', 1, vec3, float, (a.z *= b, 0))
OP2("vec3.z /=", 'F', 1, vec3, float, (a.z /= b, 0))
OP1("++vec3.z", 'I', 1, vec3, (++a.z, 0))
OP1("vec3.z++", 'I', 1, vec3, float(a.z++))
OP1("--vec3.z", 'I', 1, vec3, (--a.z, 0))
OP1("vec3.z--", 'I', 1, vec3, float(a.z--))
OP2("vec4.x +=", 'F', 1, vec4, float, (a.x += b, 0))
OP2("vec4.x -=", 'F', 1, vec4, float, (a.x -= b, 0))
OP2("vec4.x *=", 'F', 1, vec4, float, (a.x *= b, 0))
OP2("vec4.x /=", 'F', 1, vec4, float, (a.x /= b, 0))
OP1("++vec4.x", 'I', 1, vec4, (++a.x, 0))
OP1("vec4.x++", 'I', 1, vec4, float(a.x++))
OP1("--vec4.x", 'I', 1, vec4, (--a.x, 0))
OP1("vec4.x--", 'I', 1, vec4, float(a.x--))
OP2("vec4.y +=", 'F', 1, vec4, float, (a.y += b, 0))
OP2("vec4.y -=", 'F', 1, vec4, float, (a.y -= b, 0))
OP2("vec4.y *=", 'F', 1, vec4, float, (a.y *= b, 0))
OP2("vec4.y /=", 'F', 1, vec4, float, (a.y /= b, 0))
OP1("++vec4.y", 'I', 1, vec4, (++a.y, 0))
OP1("vec4.y++", 'I', 1, vec4, float(a.y++))
OP1("--vec4.y", 'I', 1, vec4, (--a.y, 0))
OP1("vec4.y--", 'I', 1, vec4, float(a.y--))
OP2("vec4.z +=", 'F', 1, vec4, float, (a.z += b, 0))
OP2("vec4.z -=", 'F', 1, vec4, float, (a.z -= b, 0))
OP2("vec4.z *=", 'F', 1, vec4, float, (a.z *= b, 0))
OP2("vec4.z /=", 'F', 1, vec4, float, (a.z /= b, 0))
OP1("++vec4.z", 'I', 1, vec4, (++a.z, 0))
OP1("vec4.z++", 'I', 1, vec4, float(a.z++))
OP1("--vec4.z", 'I', 1, vec4, (--a.z, 0))
OP1("vec4.z--", 'I', 1, vec4, float(a.z--))
OP2("vec4.w +=", 'F', 1, vec4, float, (a.w += b, 0))
OP2("vec4.w -=", 'F', 1, vec4, float, (a.w -= b, 0))
OP2("vec4.w *=", 'F', 1, vec4, float, (a.w *= b, 0))
OP2("vec4.w /=", 'F', 1, vec4, float, (a.w /= b, 0))
OP1("++vec4.w", 'I', 1, vec4, (++a.w, 0))
OP1("vec4.w++", 'I', 1, vec4, float(a.w++))
OP1("--vec4.w", 'I', 1, vec4, (--a.w, 0))
OP1("vec4.w--", 'I', 1, vec4, float(a.w--))
OP2("ivec2.x +=", 'I', 1, ivec2, int, (a.x += b, 0))
OP2("ivec2.x -=", 'I', 1, ivec2, int, (a.x -= b, 0))
OP2("ivec2.x *=", 'I', 1, ivec2, int, (a.x *= b, 0))
OP2("ivec2.x /=", 'I', 1, ivec2, int, (a.x /= b, 0))
OP2("ivec2.x %=", 'I', 1, ivec2, int, (a.x %= b, 0))
OP2("ivec2.x &=", 'I', 1, ivec2, int, (a.x &= b, 0))
OP2("ivec2.x |=", 'I', 1, ivec2, int, (a.x |= b, 0))
OP2("ivec2.x ^=", 'I', 1, ivec2, int, (a.x ^= b, 0))
OP1("++ivec2.x", 'I', 1, ivec2, (++a.x, 0))
OP1("ivec2.x++", 'I', 1, ivec2, int(a.x++))
OP1("--ivec2.x", 'I', 1, ivec2, (--a.x, 0))
OP1("ivec2.x--", 'I', 1, ivec2, int(a.x--))
OP2("ivec2.y +=", 'I', 1, ivec2, int, (a.y += b, 0))
OP2("ivec2.y -=", 'I', 1, ivec2, int, (a.y -= b, 0))
OP2("ivec2.y *=", 'I', 1, ivec2, int, (a.y *= b, 0))
OP2("ivec2.y /=", 'I', 1, ivec2, int, (a.y /= b, 0))
OP2("ivec2.y %=", 'I', 1, ivec2, int, (a.y %= b, 0))
OP2("ivec2.y &=", 'I', 1, ivec2, int, (a.y &= b, 0))
OP2("ivec2.y |=", 'I', 1, ivec2, int, (a.y |= b, 0))
OP2("ivec2.y ^=", 'I', 1, ivec2, int, (a.y ^= b, 0))
OP1("++ivec2.y", 'I', 1, ivec2, (++a.y, 0))
OP1("ivec2.y++", 'I', 1, ivec2, int(a.y++))
OP1("--ivec2.y", 'I', 1, ivec2, (--a.y, 0))
OP1("ivec2.y--", 'I', 1, ivec2, int(a.y--))
OP2("ivec3.x +=", 'I', 1, ivec3, int, (a.x += b, 0))
OP2("ivec3.x -=", 'I', 1, ivec3, int, (a.x -= b, 0))
OP2("ivec3.x *=", 'I', 1, ivec3, int, (a.x *= b, 0))
OP2("ivec3.x /=", 'I', 1, ivec3, int, (a.x /= b, 0))
OP2("ivec3.x %=", 'I', 1, ivec3, int, (a.x %= b, 0))
OP2("ivec3.x &=", 'I', 1, ivec3, int, (a.x &= b, 0))
OP2("ivec3.x |=", 'I', 1, ivec3, int, (a.x |= b, 0))
OP2("ivec3.x ^=", 'I', 1, ivec3, int, (a.x ^= b, 0))
OP1("++ivec3.x", 'I', 1, ivec3, (++a.x, 0))
OP1("ivec3.x++", 'I', 1, ivec3, int(a.x++))
OP1("--ivec3.x", 'I', 1, ivec3, (--a.x, 0))
OP1("ivec3.x--", 'I', 1, ivec3, int(a.x--))
OP2("ivec3.y +=", 'I', 1, ivec3, int, (a.y += b, 0))
OP2("ivec3.y -=", 'I', 1, ivec3, int, (a.y -= b, 0))
OP2("ivec3.y *=", 'I', 1, ivec3, int, (a.y *= b, 0))
OP2("ivec3.y /=", 'I', 1, ivec3, int, (a.y /= b, 0))
OP2("ivec3.y %=", 'I', 1, ivec3, int, (a.y %= b, 0))
OP2("ivec3.y &=", 'I', 1, ivec3, int, (a.y &= b, 0))
OP2("ivec3.y |=", 'I', 1, ivec3, int, (a.y |= b, 0))
OP2("ivec3.y ^=", 'I', 1, ivec3, int, (a.y ^= b, 0))
OP1("++ivec3.y", 'I', 1, ivec3, (++a.y, 0))
OP1("ivec3.y++", 'I', 1, ivec3, int(a.y++))
OP1("--ivec3.y", 'I', 1, ivec3, (--a.y, 0))
OP1("ivec3.y--", 'I', 1, ivec3, int(a.y--))
OP2("ivec3.z +=", 'I', 1, ivec3, int, (a.z += b, 0))
OP2("ivec3.z -=", 'I', 1, ivec3, int, (a.z -= b, 0))
OP2("ivec3.z *=", 'I', 1, ivec3, int, (a.z *= b, 0))
OP2("ivec3.z /=", 'I', 1, ivec3, int, (a.z /= b, 0))
OP2("ivec3.z %=", 'I', 1, ivec3, int, (a.z %= b, 0))
OP2("ivec3.z &=", 'I', 1, ivec3, int, (a.z &= b, 0))
OP2("ivec3.z |=", 'I', 1, ivec3, int, (a.z |= b, 0))
OP2("ivec3.z ^=", 'I', 1, ivec3, int, (a.z ^= b, 0))
OP1("++ivec3.z", 'I', 1, ivec3, (++a.z, 0))
OP1("ivec3.z++", 'I', 1, ivec3, int(a.z++))
OP1("--ivec3.z", 'I', 1, ivec3, (--a.z, 0))
OP1("ivec3.z--", 'I', 1, ivec3, int(a.z--))
OP2("ivec4.x +=", 'I', 1, ivec4, int, (a.x += b, 0))
OP2("ivec4.x -=", 'I', 1, ivec4, int, (a.x -= b, 0))
OP2("ivec4.x *=", 'I', 1, ivec4, int, (a.x *= b, 0))
OP2("ivec4.x /=", 'I', 1, ivec4, int, (a.x /= b, 0))
OP2("ivec4.x %=", 'I', 1, ivec4, int, (a.x %= b, 0))
OP2("ivec4.x &=", 'I', 1, ivec4, int, (a.x &= b, 0))
OP2("ivec4.x |=", 'I', 1, ivec4, int, (a.x |= b, 0))
OP2("ivec4.x ^=", 'I', 1, ivec4, int, (a.x ^= b, 0))
OP1("++ivec4.x", 'I', 1, ivec4, (++a.x, 0))
OP1("ivec4.x++", 'I', 1, ivec4, int(a.x++))
OP1("--ivec4.x", 'I', 1, ivec4, (--a.x, 0))
OP1("ivec4.x--", 'I', 1, ivec4, int(a.x--))
OP2("ivec4.y +=", 'I', 1, ivec4, int, (a.y += b, 0))
OP2("ivec4.y -=", 'I', 1, ivec4, int, (a.y -= b, 0))
OP2("ivec4.y *=", 'I', 1, ivec4, int, (a.y *= b, 0))
OP2("ivec4.y /=", 'I', 1, ivec4, int, (a.y /= b, 0))
OP2("ivec4.y %=", 'I', 1, ivec4, int, (a.y %= b, 0))
OP2("ivec4.y &=", 'I', 1, ivec4, int, (a.y &= b, 0))
OP2("ivec4.y |=", 'I', 1, ivec4, int, (a.y |= b, 0))
OP2("ivec4.y ^=", 'I', 1, ivec4, int, (a.y ^= b, 0))
OP1("++ivec4.y", 'I', 1, ivec4, (++a.y, 0))
OP1("ivec4.y++", 'I', 1, ivec4, int(a.y++))
OP1("--ivec4.y", 'I', 1, ivec4, (--a.y, 0))
OP1("ivec4.y--", 'I', 1, ivec4, int(a.y--))
OP2("ivec4.z +=", 'I', 1, ivec4, int, (a.z += b, 0))
OP2("ivec4.z -=", 'I', 1, ivec4, int, (a.z -= b, 0))
OP2("ivec4.z *=", 'I', 1, ivec4, int, (a.z *= b, 0))
OP2("ivec4.z /=", 'I', 1, ivec4, int, (a.z /= b, 0))
OP2("ivec4.z %=", 'I', 1, ivec4, int, (a.z %= b, 0))
OP2("ivec4.z &=", 'I', 1, ivec4, int, (a.z &= b, 0))
OP2("ivec4.z |=", 'I', 1, ivec4, int, (a.z |= b, 0))
OP2("ivec4.z ^=", 'I', 1, ivec4, int, (a.z ^= b, 0))
OP1("++ivec4.z", 'I', 1, ivec4, (++a.z, 0))
OP1("ivec4.z++", 'I', 1, ivec4, int(a.z++))
OP1("--ivec4.z", 'I', 1, ivec4, (--a.z, 0))
OP1("ivec4.z--", 'I', 1, ivec4, int(a.z--))
OP2("ivec4.w +=", 'I', 1, ivec4, int, (a.w += b, 0))
OP2("ivec4.w -=", 'I', 1, ivec4, int, (a.w -= b, 0))
OP2("ivec4.w *=", 'I', 1, ivec4, int, (a.w *= b, 0))
OP2("ivec4.w /=", 'I', 1, ivec4, int, (a.w /= b, 0))
OP2("ivec4.w %=", 'I', 1, ivec4, int, (a.w %= b, 0))
OP2("ivec4.w &=", 'I', 1, ivec4, int, (a.w &= b, 0))
OP2("ivec4.w |=", 'I', 1, ivec4, int, (a.w |= b, 0))
OP2("ivec4.w ^=", 'I', 1, ivec4, int, (a.w ^= b, 0))
OP1("++ivec4.w", 'I', 1, ivec4, (++a.w, 0))
OP1("ivec4.w++", 'I', 1, ivec4, int(a.w++))
OP1("--ivec4.w", 'I', 1, ivec4, (--a.w, 0))
OP1("ivec4.w--", 'I', 1, ivec4, int(a.w--))
