SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Utf8Law PctLaw FormLaw SegmentLaw PairLaw JsonLaw StrictLaw MpLaw IntLaw JsonIntLaw MpIntLaw
CONSTANTS
  Chars = {0, 9, 10, 32, 34, 37, 38, 43, 46, 47, 48, 61, 63, 65, 92, 97, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111}
  Octets = {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 196, 202, 223, 224, 237, 239, 240, 244, 245, 255}
  Signs = {43, 45, 48, 49, 50, 53, 55, 56, 54}
  MaxChars = 2
  MaxOctets = 3
  MaxDigits = 4
