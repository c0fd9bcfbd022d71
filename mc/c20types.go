// Code generated by tools/gen_c20.py; DO NOT EDIT.

package main

import "reflect"

var c20Bases = []c20Base{
	{rt[HIntVJ](), rt[EHIntVJ](), rt[PHIntVJ](), rt[NHIntVJ](), "VJ", "Int"},
	{rt[HIntPJ](), rt[EHIntPJ](), rt[PHIntPJ](), rt[NHIntPJ](), "PJ", "Int"},
	{rt[HIntVT](), rt[EHIntVT](), rt[PHIntVT](), rt[NHIntVT](), "VT", "Int"},
	{rt[HIntPT](), rt[EHIntPT](), rt[PHIntPT](), rt[NHIntPT](), "PT", "Int"},
	{rt[HIntVB](), rt[EHIntVB](), rt[PHIntVB](), rt[NHIntVB](), "VB", "Int"},
	{rt[HIntTJ](), rt[EHIntTJ](), rt[PHIntTJ](), rt[NHIntTJ](), "TJ", "Int"},
	{rt[HIntNN](), nil, nil, nil, "NN", "Int"},
	{rt[HStrVJ](), rt[EHStrVJ](), rt[PHStrVJ](), rt[NHStrVJ](), "VJ", "Str"},
	{rt[HStrPJ](), rt[EHStrPJ](), rt[PHStrPJ](), rt[NHStrPJ](), "PJ", "Str"},
	{rt[HStrVT](), rt[EHStrVT](), rt[PHStrVT](), rt[NHStrVT](), "VT", "Str"},
	{rt[HStrPT](), rt[EHStrPT](), rt[PHStrPT](), rt[NHStrPT](), "PT", "Str"},
	{rt[HStrVB](), rt[EHStrVB](), rt[PHStrVB](), rt[NHStrVB](), "VB", "Str"},
	{rt[HStrTJ](), rt[EHStrTJ](), rt[PHStrTJ](), rt[NHStrTJ](), "TJ", "Str"},
	{rt[HStrNN](), nil, nil, nil, "NN", "Str"},
	{rt[HByteVJ](), rt[EHByteVJ](), rt[PHByteVJ](), rt[NHByteVJ](), "VJ", "Byte"},
	{rt[HBytePJ](), rt[EHBytePJ](), rt[PHBytePJ](), rt[NHBytePJ](), "PJ", "Byte"},
	{rt[HByteVT](), rt[EHByteVT](), rt[PHByteVT](), rt[NHByteVT](), "VT", "Byte"},
	{rt[HBytePT](), rt[EHBytePT](), rt[PHBytePT](), rt[NHBytePT](), "PT", "Byte"},
	{rt[HByteVB](), rt[EHByteVB](), rt[PHByteVB](), rt[NHByteVB](), "VB", "Byte"},
	{rt[HByteTJ](), rt[EHByteTJ](), rt[PHByteTJ](), rt[NHByteTJ](), "TJ", "Byte"},
	{rt[HByteNN](), nil, nil, nil, "NN", "Byte"},
	{rt[HBoolVJ](), rt[EHBoolVJ](), rt[PHBoolVJ](), rt[NHBoolVJ](), "VJ", "Bool"},
	{rt[HBoolPJ](), rt[EHBoolPJ](), rt[PHBoolPJ](), rt[NHBoolPJ](), "PJ", "Bool"},
	{rt[HBoolVT](), rt[EHBoolVT](), rt[PHBoolVT](), rt[NHBoolVT](), "VT", "Bool"},
	{rt[HBoolPT](), rt[EHBoolPT](), rt[PHBoolPT](), rt[NHBoolPT](), "PT", "Bool"},
	{rt[HBoolVB](), rt[EHBoolVB](), rt[PHBoolVB](), rt[NHBoolVB](), "VB", "Bool"},
	{rt[HBoolTJ](), rt[EHBoolTJ](), rt[PHBoolTJ](), rt[NHBoolTJ](), "TJ", "Bool"},
	{rt[HBoolNN](), nil, nil, nil, "NN", "Bool"},
	{rt[HF64VJ](), rt[EHF64VJ](), rt[PHF64VJ](), rt[NHF64VJ](), "VJ", "F64"},
	{rt[HF64PJ](), rt[EHF64PJ](), rt[PHF64PJ](), rt[NHF64PJ](), "PJ", "F64"},
	{rt[HF64VT](), rt[EHF64VT](), rt[PHF64VT](), rt[NHF64VT](), "VT", "F64"},
	{rt[HF64PT](), rt[EHF64PT](), rt[PHF64PT](), rt[NHF64PT](), "PT", "F64"},
	{rt[HF64VB](), rt[EHF64VB](), rt[PHF64VB](), rt[NHF64VB](), "VB", "F64"},
	{rt[HF64TJ](), rt[EHF64TJ](), rt[PHF64TJ](), rt[NHF64TJ](), "TJ", "F64"},
	{rt[HF64NN](), nil, nil, nil, "NN", "F64"},
	{rt[HStructVJ](), rt[EHStructVJ](), rt[PHStructVJ](), rt[NHStructVJ](), "VJ", "Struct"},
	{rt[HStructPJ](), rt[EHStructPJ](), rt[PHStructPJ](), rt[NHStructPJ](), "PJ", "Struct"},
	{rt[HStructVT](), rt[EHStructVT](), rt[PHStructVT](), rt[NHStructVT](), "VT", "Struct"},
	{rt[HStructPT](), rt[EHStructPT](), rt[PHStructPT](), rt[NHStructPT](), "PT", "Struct"},
	{rt[HStructVB](), rt[EHStructVB](), rt[PHStructVB](), rt[NHStructVB](), "VB", "Struct"},
	{rt[HStructTJ](), rt[EHStructTJ](), rt[PHStructTJ](), rt[NHStructTJ](), "TJ", "Struct"},
	{rt[HStructNN](), nil, nil, nil, "NN", "Struct"},
	{rt[HOneVJ](), rt[EHOneVJ](), rt[PHOneVJ](), rt[NHOneVJ](), "VJ", "One"},
	{rt[HOnePJ](), rt[EHOnePJ](), rt[PHOnePJ](), rt[NHOnePJ](), "PJ", "One"},
	{rt[HOneVT](), rt[EHOneVT](), rt[PHOneVT](), rt[NHOneVT](), "VT", "One"},
	{rt[HOnePT](), rt[EHOnePT](), rt[PHOnePT](), rt[NHOnePT](), "PT", "One"},
	{rt[HOneVB](), rt[EHOneVB](), rt[PHOneVB](), rt[NHOneVB](), "VB", "One"},
	{rt[HOneTJ](), rt[EHOneTJ](), rt[PHOneTJ](), rt[NHOneTJ](), "TJ", "One"},
	{rt[HOneNN](), nil, nil, nil, "NN", "One"},
	{rt[HPSVJ](), rt[EHPSVJ](), rt[PHPSVJ](), rt[NHPSVJ](), "VJ", "PS"},
	{rt[HPSPJ](), rt[EHPSPJ](), rt[PHPSPJ](), rt[NHPSPJ](), "PJ", "PS"},
	{rt[HPSVT](), rt[EHPSVT](), rt[PHPSVT](), rt[NHPSVT](), "VT", "PS"},
	{rt[HPSPT](), rt[EHPSPT](), rt[PHPSPT](), rt[NHPSPT](), "PT", "PS"},
	{rt[HPSVB](), rt[EHPSVB](), rt[PHPSVB](), rt[NHPSVB](), "VB", "PS"},
	{rt[HPSTJ](), rt[EHPSTJ](), rt[PHPSTJ](), rt[NHPSTJ](), "TJ", "PS"},
	{rt[HPSNN](), nil, nil, nil, "NN", "PS"},
	{rt[HMapVJ](), rt[EHMapVJ](), rt[PHMapVJ](), rt[NHMapVJ](), "VJ", "Map"},
	{rt[HMapPJ](), rt[EHMapPJ](), rt[PHMapPJ](), rt[NHMapPJ](), "PJ", "Map"},
	{rt[HMapVT](), rt[EHMapVT](), rt[PHMapVT](), rt[NHMapVT](), "VT", "Map"},
	{rt[HMapPT](), rt[EHMapPT](), rt[PHMapPT](), rt[NHMapPT](), "PT", "Map"},
	{rt[HMapVB](), rt[EHMapVB](), rt[PHMapVB](), rt[NHMapVB](), "VB", "Map"},
	{rt[HMapTJ](), rt[EHMapTJ](), rt[PHMapTJ](), rt[NHMapTJ](), "TJ", "Map"},
	{rt[HMapNN](), nil, nil, nil, "NN", "Map"},
	{rt[HSliceVJ](), rt[EHSliceVJ](), rt[PHSliceVJ](), rt[NHSliceVJ](), "VJ", "Slice"},
	{rt[HSlicePJ](), rt[EHSlicePJ](), rt[PHSlicePJ](), rt[NHSlicePJ](), "PJ", "Slice"},
	{rt[HSliceVT](), rt[EHSliceVT](), rt[PHSliceVT](), rt[NHSliceVT](), "VT", "Slice"},
	{rt[HSlicePT](), rt[EHSlicePT](), rt[PHSlicePT](), rt[NHSlicePT](), "PT", "Slice"},
	{rt[HSliceVB](), rt[EHSliceVB](), rt[PHSliceVB](), rt[NHSliceVB](), "VB", "Slice"},
	{rt[HSliceTJ](), rt[EHSliceTJ](), rt[PHSliceTJ](), rt[NHSliceTJ](), "TJ", "Slice"},
	{rt[HSliceNN](), nil, nil, nil, "NN", "Slice"},
	{rt[HArrVJ](), rt[EHArrVJ](), rt[PHArrVJ](), rt[NHArrVJ](), "VJ", "Arr"},
	{rt[HArrPJ](), rt[EHArrPJ](), rt[PHArrPJ](), rt[NHArrPJ](), "PJ", "Arr"},
	{rt[HArrVT](), rt[EHArrVT](), rt[PHArrVT](), rt[NHArrVT](), "VT", "Arr"},
	{rt[HArrPT](), rt[EHArrPT](), rt[PHArrPT](), rt[NHArrPT](), "PT", "Arr"},
	{rt[HArrVB](), rt[EHArrVB](), rt[PHArrVB](), rt[NHArrVB](), "VB", "Arr"},
	{rt[HArrTJ](), rt[EHArrTJ](), rt[PHArrTJ](), rt[NHArrTJ](), "TJ", "Arr"},
	{rt[HArrNN](), nil, nil, nil, "NN", "Arr"},
	{rt[HPArrVJ](), rt[EHPArrVJ](), rt[PHPArrVJ](), rt[NHPArrVJ](), "VJ", "PArr"},
	{rt[HPArrPJ](), rt[EHPArrPJ](), rt[PHPArrPJ](), rt[NHPArrPJ](), "PJ", "PArr"},
	{rt[HPArrVT](), rt[EHPArrVT](), rt[PHPArrVT](), rt[NHPArrVT](), "VT", "PArr"},
	{rt[HPArrPT](), rt[EHPArrPT](), rt[PHPArrPT](), rt[NHPArrPT](), "PT", "PArr"},
	{rt[HPArrVB](), rt[EHPArrVB](), rt[PHPArrVB](), rt[NHPArrVB](), "VB", "PArr"},
	{rt[HPArrTJ](), rt[EHPArrTJ](), rt[PHPArrTJ](), rt[NHPArrTJ](), "TJ", "PArr"},
	{rt[HPArrNN](), nil, nil, nil, "NN", "PArr"},
	{rt[HEmptyVJ](), rt[EHEmptyVJ](), rt[PHEmptyVJ](), rt[NHEmptyVJ](), "VJ", "Empty"},
	{rt[HEmptyPJ](), rt[EHEmptyPJ](), rt[PHEmptyPJ](), rt[NHEmptyPJ](), "PJ", "Empty"},
	{rt[HEmptyVT](), rt[EHEmptyVT](), rt[PHEmptyVT](), rt[NHEmptyVT](), "VT", "Empty"},
	{rt[HEmptyPT](), rt[EHEmptyPT](), rt[PHEmptyPT](), rt[NHEmptyPT](), "PT", "Empty"},
	{rt[HEmptyVB](), rt[EHEmptyVB](), rt[PHEmptyVB](), rt[NHEmptyVB](), "VB", "Empty"},
	{rt[HEmptyTJ](), rt[EHEmptyTJ](), rt[PHEmptyTJ](), rt[NHEmptyTJ](), "TJ", "Empty"},
	{rt[HEmptyNN](), nil, nil, nil, "NN", "Empty"},
	{rt[HChanVJ](), rt[EHChanVJ](), rt[PHChanVJ](), rt[NHChanVJ](), "VJ", "Chan"},
	{rt[HChanPJ](), rt[EHChanPJ](), rt[PHChanPJ](), rt[NHChanPJ](), "PJ", "Chan"},
	{rt[HChanVT](), rt[EHChanVT](), rt[PHChanVT](), rt[NHChanVT](), "VT", "Chan"},
	{rt[HChanPT](), rt[EHChanPT](), rt[PHChanPT](), rt[NHChanPT](), "PT", "Chan"},
	{rt[HChanVB](), rt[EHChanVB](), rt[PHChanVB](), rt[NHChanVB](), "VB", "Chan"},
	{rt[HChanTJ](), rt[EHChanTJ](), rt[PHChanTJ](), rt[NHChanTJ](), "TJ", "Chan"},
	{rt[HChanNN](), nil, nil, nil, "NN", "Chan"},
	{rt[HZArrVJ](), rt[EHZArrVJ](), rt[PHZArrVJ](), rt[NHZArrVJ](), "VJ", "ZArr"},
	{rt[HZArrPJ](), rt[EHZArrPJ](), rt[PHZArrPJ](), rt[NHZArrPJ](), "PJ", "ZArr"},
	{rt[HZArrVT](), rt[EHZArrVT](), rt[PHZArrVT](), rt[NHZArrVT](), "VT", "ZArr"},
	{rt[HZArrPT](), rt[EHZArrPT](), rt[PHZArrPT](), rt[NHZArrPT](), "PT", "ZArr"},
	{rt[HZArrVB](), rt[EHZArrVB](), rt[PHZArrVB](), rt[NHZArrVB](), "VB", "ZArr"},
	{rt[HZArrTJ](), rt[EHZArrTJ](), rt[PHZArrTJ](), rt[NHZArrTJ](), "TJ", "ZArr"},
	{rt[HZArrNN](), nil, nil, nil, "NN", "ZArr"},
	{rt[HZPArrVJ](), rt[EHZPArrVJ](), rt[PHZPArrVJ](), rt[NHZPArrVJ](), "VJ", "ZPArr"},
	{rt[HZPArrPJ](), rt[EHZPArrPJ](), rt[PHZPArrPJ](), rt[NHZPArrPJ](), "PJ", "ZPArr"},
	{rt[HZPArrVT](), rt[EHZPArrVT](), rt[PHZPArrVT](), rt[NHZPArrVT](), "VT", "ZPArr"},
	{rt[HZPArrPT](), rt[EHZPArrPT](), rt[PHZPArrPT](), rt[NHZPArrPT](), "PT", "ZPArr"},
	{rt[HZPArrVB](), rt[EHZPArrVB](), rt[PHZPArrVB](), rt[NHZPArrVB](), "VB", "ZPArr"},
	{rt[HZPArrTJ](), rt[EHZPArrTJ](), rt[PHZPArrTJ](), rt[NHZPArrTJ](), "TJ", "ZPArr"},
	{rt[HZPArrNN](), nil, nil, nil, "NN", "ZPArr"},
	{rt[HI16VJ](), rt[EHI16VJ](), rt[PHI16VJ](), rt[NHI16VJ](), "VJ", "I16"},
	{rt[HI16PJ](), rt[EHI16PJ](), rt[PHI16PJ](), rt[NHI16PJ](), "PJ", "I16"},
	{rt[HI16VT](), rt[EHI16VT](), rt[PHI16VT](), rt[NHI16VT](), "VT", "I16"},
	{rt[HI16PT](), rt[EHI16PT](), rt[PHI16PT](), rt[NHI16PT](), "PT", "I16"},
	{rt[HI16VB](), rt[EHI16VB](), rt[PHI16VB](), rt[NHI16VB](), "VB", "I16"},
	{rt[HI16TJ](), rt[EHI16TJ](), rt[PHI16TJ](), rt[NHI16TJ](), "TJ", "I16"},
	{rt[HI16NN](), nil, nil, nil, "NN", "I16"},
	{rt[HU32VJ](), rt[EHU32VJ](), rt[PHU32VJ](), rt[NHU32VJ](), "VJ", "U32"},
	{rt[HU32PJ](), rt[EHU32PJ](), rt[PHU32PJ](), rt[NHU32PJ](), "PJ", "U32"},
	{rt[HU32VT](), rt[EHU32VT](), rt[PHU32VT](), rt[NHU32VT](), "VT", "U32"},
	{rt[HU32PT](), rt[EHU32PT](), rt[PHU32PT](), rt[NHU32PT](), "PT", "U32"},
	{rt[HU32VB](), rt[EHU32VB](), rt[PHU32VB](), rt[NHU32VB](), "VB", "U32"},
	{rt[HU32TJ](), rt[EHU32TJ](), rt[PHU32TJ](), rt[NHU32TJ](), "TJ", "U32"},
	{rt[HU32NN](), nil, nil, nil, "NN", "U32"},
	{rt[HF32VJ](), rt[EHF32VJ](), rt[PHF32VJ](), rt[NHF32VJ](), "VJ", "F32"},
	{rt[HF32PJ](), rt[EHF32PJ](), rt[PHF32PJ](), rt[NHF32PJ](), "PJ", "F32"},
	{rt[HF32VT](), rt[EHF32VT](), rt[PHF32VT](), rt[NHF32VT](), "VT", "F32"},
	{rt[HF32PT](), rt[EHF32PT](), rt[PHF32PT](), rt[NHF32PT](), "PT", "F32"},
	{rt[HF32VB](), rt[EHF32VB](), rt[PHF32VB](), rt[NHF32VB](), "VB", "F32"},
	{rt[HF32TJ](), rt[EHF32TJ](), rt[PHF32TJ](), rt[NHF32TJ](), "TJ", "F32"},
	{rt[HF32NN](), nil, nil, nil, "NN", "F32"},
	{rt[HI8VJ](), rt[EHI8VJ](), rt[PHI8VJ](), rt[NHI8VJ](), "VJ", "I8"},
	{rt[HI8PJ](), rt[EHI8PJ](), rt[PHI8PJ](), rt[NHI8PJ](), "PJ", "I8"},
	{rt[HI8VT](), rt[EHI8VT](), rt[PHI8VT](), rt[NHI8VT](), "VT", "I8"},
	{rt[HI8PT](), rt[EHI8PT](), rt[PHI8PT](), rt[NHI8PT](), "PT", "I8"},
	{rt[HI8VB](), rt[EHI8VB](), rt[PHI8VB](), rt[NHI8VB](), "VB", "I8"},
	{rt[HI8TJ](), rt[EHI8TJ](), rt[PHI8TJ](), rt[NHI8TJ](), "TJ", "I8"},
	{rt[HI8NN](), nil, nil, nil, "NN", "I8"},
	{rt[HI32VJ](), rt[EHI32VJ](), rt[PHI32VJ](), rt[NHI32VJ](), "VJ", "I32"},
	{rt[HI32PJ](), rt[EHI32PJ](), rt[PHI32PJ](), rt[NHI32PJ](), "PJ", "I32"},
	{rt[HI32VT](), rt[EHI32VT](), rt[PHI32VT](), rt[NHI32VT](), "VT", "I32"},
	{rt[HI32PT](), rt[EHI32PT](), rt[PHI32PT](), rt[NHI32PT](), "PT", "I32"},
	{rt[HI32VB](), rt[EHI32VB](), rt[PHI32VB](), rt[NHI32VB](), "VB", "I32"},
	{rt[HI32TJ](), rt[EHI32TJ](), rt[PHI32TJ](), rt[NHI32TJ](), "TJ", "I32"},
	{rt[HI32NN](), nil, nil, nil, "NN", "I32"},
	{rt[HI64VJ](), rt[EHI64VJ](), rt[PHI64VJ](), rt[NHI64VJ](), "VJ", "I64"},
	{rt[HI64PJ](), rt[EHI64PJ](), rt[PHI64PJ](), rt[NHI64PJ](), "PJ", "I64"},
	{rt[HI64VT](), rt[EHI64VT](), rt[PHI64VT](), rt[NHI64VT](), "VT", "I64"},
	{rt[HI64PT](), rt[EHI64PT](), rt[PHI64PT](), rt[NHI64PT](), "PT", "I64"},
	{rt[HI64VB](), rt[EHI64VB](), rt[PHI64VB](), rt[NHI64VB](), "VB", "I64"},
	{rt[HI64TJ](), rt[EHI64TJ](), rt[PHI64TJ](), rt[NHI64TJ](), "TJ", "I64"},
	{rt[HI64NN](), nil, nil, nil, "NN", "I64"},
	{rt[HUVJ](), rt[EHUVJ](), rt[PHUVJ](), rt[NHUVJ](), "VJ", "U"},
	{rt[HUPJ](), rt[EHUPJ](), rt[PHUPJ](), rt[NHUPJ](), "PJ", "U"},
	{rt[HUVT](), rt[EHUVT](), rt[PHUVT](), rt[NHUVT](), "VT", "U"},
	{rt[HUPT](), rt[EHUPT](), rt[PHUPT](), rt[NHUPT](), "PT", "U"},
	{rt[HUVB](), rt[EHUVB](), rt[PHUVB](), rt[NHUVB](), "VB", "U"},
	{rt[HUTJ](), rt[EHUTJ](), rt[PHUTJ](), rt[NHUTJ](), "TJ", "U"},
	{rt[HUNN](), nil, nil, nil, "NN", "U"},
	{rt[HU16VJ](), rt[EHU16VJ](), rt[PHU16VJ](), rt[NHU16VJ](), "VJ", "U16"},
	{rt[HU16PJ](), rt[EHU16PJ](), rt[PHU16PJ](), rt[NHU16PJ](), "PJ", "U16"},
	{rt[HU16VT](), rt[EHU16VT](), rt[PHU16VT](), rt[NHU16VT](), "VT", "U16"},
	{rt[HU16PT](), rt[EHU16PT](), rt[PHU16PT](), rt[NHU16PT](), "PT", "U16"},
	{rt[HU16VB](), rt[EHU16VB](), rt[PHU16VB](), rt[NHU16VB](), "VB", "U16"},
	{rt[HU16TJ](), rt[EHU16TJ](), rt[PHU16TJ](), rt[NHU16TJ](), "TJ", "U16"},
	{rt[HU16NN](), nil, nil, nil, "NN", "U16"},
	{rt[HU64VJ](), rt[EHU64VJ](), rt[PHU64VJ](), rt[NHU64VJ](), "VJ", "U64"},
	{rt[HU64PJ](), rt[EHU64PJ](), rt[PHU64PJ](), rt[NHU64PJ](), "PJ", "U64"},
	{rt[HU64VT](), rt[EHU64VT](), rt[PHU64VT](), rt[NHU64VT](), "VT", "U64"},
	{rt[HU64PT](), rt[EHU64PT](), rt[PHU64PT](), rt[NHU64PT](), "PT", "U64"},
	{rt[HU64VB](), rt[EHU64VB](), rt[PHU64VB](), rt[NHU64VB](), "VB", "U64"},
	{rt[HU64TJ](), rt[EHU64TJ](), rt[PHU64TJ](), rt[NHU64TJ](), "TJ", "U64"},
	{rt[HU64NN](), nil, nil, nil, "NN", "U64"},
	{rt[HUptrVJ](), rt[EHUptrVJ](), rt[PHUptrVJ](), rt[NHUptrVJ](), "VJ", "Uptr"},
	{rt[HUptrPJ](), rt[EHUptrPJ](), rt[PHUptrPJ](), rt[NHUptrPJ](), "PJ", "Uptr"},
	{rt[HUptrVT](), rt[EHUptrVT](), rt[PHUptrVT](), rt[NHUptrVT](), "VT", "Uptr"},
	{rt[HUptrPT](), rt[EHUptrPT](), rt[PHUptrPT](), rt[NHUptrPT](), "PT", "Uptr"},
	{rt[HUptrVB](), rt[EHUptrVB](), rt[PHUptrVB](), rt[NHUptrVB](), "VB", "Uptr"},
	{rt[HUptrTJ](), rt[EHUptrTJ](), rt[PHUptrTJ](), rt[NHUptrTJ](), "TJ", "Uptr"},
	{rt[HUptrNN](), nil, nil, nil, "NN", "Uptr"},
	{rt[HC128VJ](), rt[EHC128VJ](), rt[PHC128VJ](), rt[NHC128VJ](), "VJ", "C128"},
	{rt[HC128PJ](), rt[EHC128PJ](), rt[PHC128PJ](), rt[NHC128PJ](), "PJ", "C128"},
	{rt[HC128VT](), rt[EHC128VT](), rt[PHC128VT](), rt[NHC128VT](), "VT", "C128"},
	{rt[HC128PT](), rt[EHC128PT](), rt[PHC128PT](), rt[NHC128PT](), "PT", "C128"},
	{rt[HC128VB](), rt[EHC128VB](), rt[PHC128VB](), rt[NHC128VB](), "VB", "C128"},
	{rt[HC128TJ](), rt[EHC128TJ](), rt[PHC128TJ](), rt[NHC128TJ](), "TJ", "C128"},
	{rt[HC128NN](), nil, nil, nil, "NN", "C128"},
	{rt[HBytesVJ](), rt[EHBytesVJ](), rt[PHBytesVJ](), rt[NHBytesVJ](), "VJ", "Bytes"},
	{rt[HBytesPJ](), rt[EHBytesPJ](), rt[PHBytesPJ](), rt[NHBytesPJ](), "PJ", "Bytes"},
	{rt[HBytesVT](), rt[EHBytesVT](), rt[PHBytesVT](), rt[NHBytesVT](), "VT", "Bytes"},
	{rt[HBytesPT](), rt[EHBytesPT](), rt[PHBytesPT](), rt[NHBytesPT](), "PT", "Bytes"},
	{rt[HBytesVB](), rt[EHBytesVB](), rt[PHBytesVB](), rt[NHBytesVB](), "VB", "Bytes"},
	{rt[HBytesTJ](), rt[EHBytesTJ](), rt[PHBytesTJ](), rt[NHBytesTJ](), "TJ", "Bytes"},
	{rt[HBytesNN](), nil, nil, nil, "NN", "Bytes"},
	{rt[HIMapVJ](), rt[EHIMapVJ](), rt[PHIMapVJ](), rt[NHIMapVJ](), "VJ", "IMap"},
	{rt[HIMapPJ](), rt[EHIMapPJ](), rt[PHIMapPJ](), rt[NHIMapPJ](), "PJ", "IMap"},
	{rt[HIMapVT](), rt[EHIMapVT](), rt[PHIMapVT](), rt[NHIMapVT](), "VT", "IMap"},
	{rt[HIMapPT](), rt[EHIMapPT](), rt[PHIMapPT](), rt[NHIMapPT](), "PT", "IMap"},
	{rt[HIMapVB](), rt[EHIMapVB](), rt[PHIMapVB](), rt[NHIMapVB](), "VB", "IMap"},
	{rt[HIMapTJ](), rt[EHIMapTJ](), rt[PHIMapTJ](), rt[NHIMapTJ](), "TJ", "IMap"},
	{rt[HIMapNN](), nil, nil, nil, "NN", "IMap"},
	{rt[HArr1VJ](), rt[EHArr1VJ](), rt[PHArr1VJ](), rt[NHArr1VJ](), "VJ", "Arr1"},
	{rt[HArr1PJ](), rt[EHArr1PJ](), rt[PHArr1PJ](), rt[NHArr1PJ](), "PJ", "Arr1"},
	{rt[HArr1VT](), rt[EHArr1VT](), rt[PHArr1VT](), rt[NHArr1VT](), "VT", "Arr1"},
	{rt[HArr1PT](), rt[EHArr1PT](), rt[PHArr1PT](), rt[NHArr1PT](), "PT", "Arr1"},
	{rt[HArr1VB](), rt[EHArr1VB](), rt[PHArr1VB](), rt[NHArr1VB](), "VB", "Arr1"},
	{rt[HArr1TJ](), rt[EHArr1TJ](), rt[PHArr1TJ](), rt[NHArr1TJ](), "TJ", "Arr1"},
	{rt[HArr1NN](), nil, nil, nil, "NN", "Arr1"},
	{rt[HSPSVJ](), rt[EHSPSVJ](), rt[PHSPSVJ](), rt[NHSPSVJ](), "VJ", "SPS"},
	{rt[HSPSPJ](), rt[EHSPSPJ](), rt[PHSPSPJ](), rt[NHSPSPJ](), "PJ", "SPS"},
	{rt[HSPSVT](), rt[EHSPSVT](), rt[PHSPSVT](), rt[NHSPSVT](), "VT", "SPS"},
	{rt[HSPSPT](), rt[EHSPSPT](), rt[PHSPSPT](), rt[NHSPSPT](), "PT", "SPS"},
	{rt[HSPSVB](), rt[EHSPSVB](), rt[PHSPSVB](), rt[NHSPSVB](), "VB", "SPS"},
	{rt[HSPSTJ](), rt[EHSPSTJ](), rt[PHSPSTJ](), rt[NHSPSTJ](), "TJ", "SPS"},
	{rt[HSPSNN](), nil, nil, nil, "NN", "SPS"},
	{rt[HASVJ](), rt[EHASVJ](), rt[PHASVJ](), rt[NHASVJ](), "VJ", "AS"},
	{rt[HASPJ](), rt[EHASPJ](), rt[PHASPJ](), rt[NHASPJ](), "PJ", "AS"},
	{rt[HASVT](), rt[EHASVT](), rt[PHASVT](), rt[NHASVT](), "VT", "AS"},
	{rt[HASPT](), rt[EHASPT](), rt[PHASPT](), rt[NHASPT](), "PT", "AS"},
	{rt[HASVB](), rt[EHASVB](), rt[PHASVB](), rt[NHASVB](), "VB", "AS"},
	{rt[HASTJ](), rt[EHASTJ](), rt[PHASTJ](), rt[NHASTJ](), "TJ", "AS"},
	{rt[HASNN](), nil, nil, nil, "NN", "AS"},
	{rt[HSMVJ](), rt[EHSMVJ](), rt[PHSMVJ](), rt[NHSMVJ](), "VJ", "SM"},
	{rt[HSMPJ](), rt[EHSMPJ](), rt[PHSMPJ](), rt[NHSMPJ](), "PJ", "SM"},
	{rt[HSMVT](), rt[EHSMVT](), rt[PHSMVT](), rt[NHSMVT](), "VT", "SM"},
	{rt[HSMPT](), rt[EHSMPT](), rt[PHSMPT](), rt[NHSMPT](), "PT", "SM"},
	{rt[HSMVB](), rt[EHSMVB](), rt[PHSMVB](), rt[NHSMVB](), "VB", "SM"},
	{rt[HSMTJ](), rt[EHSMTJ](), rt[PHSMTJ](), rt[NHSMTJ](), "TJ", "SM"},
	{rt[HSMNN](), nil, nil, nil, "NN", "SM"},
	{rt[HPSliceVJ](), rt[EHPSliceVJ](), rt[PHPSliceVJ](), rt[NHPSliceVJ](), "VJ", "PSlice"},
	{rt[HPSlicePJ](), rt[EHPSlicePJ](), rt[PHPSlicePJ](), rt[NHPSlicePJ](), "PJ", "PSlice"},
	{rt[HPSliceVT](), rt[EHPSliceVT](), rt[PHPSliceVT](), rt[NHPSliceVT](), "VT", "PSlice"},
	{rt[HPSlicePT](), rt[EHPSlicePT](), rt[PHPSlicePT](), rt[NHPSlicePT](), "PT", "PSlice"},
	{rt[HPSliceVB](), rt[EHPSliceVB](), rt[PHPSliceVB](), rt[NHPSliceVB](), "VB", "PSlice"},
	{rt[HPSliceTJ](), rt[EHPSliceTJ](), rt[PHPSliceTJ](), rt[NHPSliceTJ](), "TJ", "PSlice"},
	{rt[HPSliceNN](), nil, nil, nil, "NN", "PSlice"},
	{rt[HSSVJ](), rt[EHSSVJ](), rt[PHSSVJ](), rt[NHSSVJ](), "VJ", "SS"},
	{rt[HSSPJ](), rt[EHSSPJ](), rt[PHSSPJ](), rt[NHSSPJ](), "PJ", "SS"},
	{rt[HSSVT](), rt[EHSSVT](), rt[PHSSVT](), rt[NHSSVT](), "VT", "SS"},
	{rt[HSSPT](), rt[EHSSPT](), rt[PHSSPT](), rt[NHSSPT](), "PT", "SS"},
	{rt[HSSVB](), rt[EHSSVB](), rt[PHSSVB](), rt[NHSSVB](), "VB", "SS"},
	{rt[HSSTJ](), rt[EHSSTJ](), rt[PHSSTJ](), rt[NHSSTJ](), "TJ", "SS"},
	{rt[HSSNN](), nil, nil, nil, "NN", "SS"},
	{rt[HWideVJ](), rt[EHWideVJ](), rt[PHWideVJ](), rt[NHWideVJ](), "VJ", "Wide"},
	{rt[HWidePJ](), rt[EHWidePJ](), rt[PHWidePJ](), rt[NHWidePJ](), "PJ", "Wide"},
	{rt[HWideVT](), rt[EHWideVT](), rt[PHWideVT](), rt[NHWideVT](), "VT", "Wide"},
	{rt[HWidePT](), rt[EHWidePT](), rt[PHWidePT](), rt[NHWidePT](), "PT", "Wide"},
	{rt[HWideVB](), rt[EHWideVB](), rt[PHWideVB](), rt[NHWideVB](), "VB", "Wide"},
	{rt[HWideTJ](), rt[EHWideTJ](), rt[PHWideTJ](), rt[NHWideTJ](), "TJ", "Wide"},
	{rt[HWideNN](), nil, nil, nil, "NN", "Wide"},
	{rt[HZeroVJ](), rt[EHZeroVJ](), rt[PHZeroVJ](), rt[NHZeroVJ](), "VJ", "Zero"},
	{rt[HZeroPJ](), rt[EHZeroPJ](), rt[PHZeroPJ](), rt[NHZeroPJ](), "PJ", "Zero"},
	{rt[HZeroVT](), rt[EHZeroVT](), rt[PHZeroVT](), rt[NHZeroVT](), "VT", "Zero"},
	{rt[HZeroPT](), rt[EHZeroPT](), rt[PHZeroPT](), rt[NHZeroPT](), "PT", "Zero"},
	{rt[HZeroVB](), rt[EHZeroVB](), rt[PHZeroVB](), rt[NHZeroVB](), "VB", "Zero"},
	{rt[HZeroTJ](), rt[EHZeroTJ](), rt[PHZeroTJ](), rt[NHZeroTJ](), "TJ", "Zero"},
	{rt[HZeroNN](), nil, nil, nil, "NN", "Zero"},
}

type HIntVJ int

func (x HIntVJ) MarshalJSON() ([]byte, error) { return c20Enc("HIntVJ", "json", x) }
func (x *HIntVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HIntVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHIntVJ struct {
	HIntVJ
	Z int
}
type PHIntVJ struct {
	*HIntVJ
	Z int
}
type NHIntVJ *HIntVJ

type HIntPJ int

func (x *HIntPJ) MarshalJSON() ([]byte, error) { return c20Enc("HIntPJ", "json", *x) }
func (x *HIntPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HIntPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHIntPJ struct {
	HIntPJ
	Z int
}
type PHIntPJ struct {
	*HIntPJ
	Z int
}
type NHIntPJ *HIntPJ

type HIntVT int

func (x HIntVT) MarshalText() ([]byte, error) { return c20Enc("HIntVT", "text", x) }
func (x *HIntVT) UnmarshalText(b []byte) error {
	return c20Dec("HIntVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIntVT struct {
	HIntVT
	Z int
}
type PHIntVT struct {
	*HIntVT
	Z int
}
type NHIntVT *HIntVT

type HIntPT int

func (x *HIntPT) MarshalText() ([]byte, error) { return c20Enc("HIntPT", "text", *x) }
func (x *HIntPT) UnmarshalText(b []byte) error {
	return c20Dec("HIntPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIntPT struct {
	HIntPT
	Z int
}
type PHIntPT struct {
	*HIntPT
	Z int
}
type NHIntPT *HIntPT

type HIntVB int

func (x HIntVB) MarshalJSON() ([]byte, error) { return c20Enc("HIntVB", "json", x) }
func (x *HIntVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HIntVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HIntVB) MarshalText() ([]byte, error) { return c20Enc("HIntVB", "text", x) }
func (x *HIntVB) UnmarshalText(b []byte) error {
	return c20Dec("HIntVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIntVB struct {
	HIntVB
	Z int
}
type PHIntVB struct {
	*HIntVB
	Z int
}
type NHIntVB *HIntVB

type HIntTJ int

func (x *HIntTJ) MarshalJSON() ([]byte, error) { return c20Enc("HIntTJ", "json", *x) }
func (x *HIntTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HIntTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HIntTJ) MarshalText() ([]byte, error) { return c20Enc("HIntTJ", "text", x) }
func (x *HIntTJ) UnmarshalText(b []byte) error {
	return c20Dec("HIntTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIntTJ struct {
	HIntTJ
	Z int
}
type PHIntTJ struct {
	*HIntTJ
	Z int
}
type NHIntTJ *HIntTJ

type HIntNN int

type HStrVJ string

func (x HStrVJ) MarshalJSON() ([]byte, error) { return c20Enc("HStrVJ", "json", x) }
func (x *HStrVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HStrVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHStrVJ struct {
	HStrVJ
	Z int
}
type PHStrVJ struct {
	*HStrVJ
	Z int
}
type NHStrVJ *HStrVJ

type HStrPJ string

func (x *HStrPJ) MarshalJSON() ([]byte, error) { return c20Enc("HStrPJ", "json", *x) }
func (x *HStrPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HStrPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHStrPJ struct {
	HStrPJ
	Z int
}
type PHStrPJ struct {
	*HStrPJ
	Z int
}
type NHStrPJ *HStrPJ

type HStrVT string

func (x HStrVT) MarshalText() ([]byte, error) { return c20Enc("HStrVT", "text", x) }
func (x *HStrVT) UnmarshalText(b []byte) error {
	return c20Dec("HStrVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStrVT struct {
	HStrVT
	Z int
}
type PHStrVT struct {
	*HStrVT
	Z int
}
type NHStrVT *HStrVT

type HStrPT string

func (x *HStrPT) MarshalText() ([]byte, error) { return c20Enc("HStrPT", "text", *x) }
func (x *HStrPT) UnmarshalText(b []byte) error {
	return c20Dec("HStrPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStrPT struct {
	HStrPT
	Z int
}
type PHStrPT struct {
	*HStrPT
	Z int
}
type NHStrPT *HStrPT

type HStrVB string

func (x HStrVB) MarshalJSON() ([]byte, error) { return c20Enc("HStrVB", "json", x) }
func (x *HStrVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HStrVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HStrVB) MarshalText() ([]byte, error) { return c20Enc("HStrVB", "text", x) }
func (x *HStrVB) UnmarshalText(b []byte) error {
	return c20Dec("HStrVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStrVB struct {
	HStrVB
	Z int
}
type PHStrVB struct {
	*HStrVB
	Z int
}
type NHStrVB *HStrVB

type HStrTJ string

func (x *HStrTJ) MarshalJSON() ([]byte, error) { return c20Enc("HStrTJ", "json", *x) }
func (x *HStrTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HStrTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HStrTJ) MarshalText() ([]byte, error) { return c20Enc("HStrTJ", "text", x) }
func (x *HStrTJ) UnmarshalText(b []byte) error {
	return c20Dec("HStrTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStrTJ struct {
	HStrTJ
	Z int
}
type PHStrTJ struct {
	*HStrTJ
	Z int
}
type NHStrTJ *HStrTJ

type HStrNN string

type HByteVJ uint8

func (x HByteVJ) MarshalJSON() ([]byte, error) { return c20Enc("HByteVJ", "json", x) }
func (x *HByteVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HByteVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHByteVJ struct {
	HByteVJ
	Z int
}
type PHByteVJ struct {
	*HByteVJ
	Z int
}
type NHByteVJ *HByteVJ

type HBytePJ uint8

func (x *HBytePJ) MarshalJSON() ([]byte, error) { return c20Enc("HBytePJ", "json", *x) }
func (x *HBytePJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HBytePJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHBytePJ struct {
	HBytePJ
	Z int
}
type PHBytePJ struct {
	*HBytePJ
	Z int
}
type NHBytePJ *HBytePJ

type HByteVT uint8

func (x HByteVT) MarshalText() ([]byte, error) { return c20Enc("HByteVT", "text", x) }
func (x *HByteVT) UnmarshalText(b []byte) error {
	return c20Dec("HByteVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHByteVT struct {
	HByteVT
	Z int
}
type PHByteVT struct {
	*HByteVT
	Z int
}
type NHByteVT *HByteVT

type HBytePT uint8

func (x *HBytePT) MarshalText() ([]byte, error) { return c20Enc("HBytePT", "text", *x) }
func (x *HBytePT) UnmarshalText(b []byte) error {
	return c20Dec("HBytePT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBytePT struct {
	HBytePT
	Z int
}
type PHBytePT struct {
	*HBytePT
	Z int
}
type NHBytePT *HBytePT

type HByteVB uint8

func (x HByteVB) MarshalJSON() ([]byte, error) { return c20Enc("HByteVB", "json", x) }
func (x *HByteVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HByteVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HByteVB) MarshalText() ([]byte, error) { return c20Enc("HByteVB", "text", x) }
func (x *HByteVB) UnmarshalText(b []byte) error {
	return c20Dec("HByteVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHByteVB struct {
	HByteVB
	Z int
}
type PHByteVB struct {
	*HByteVB
	Z int
}
type NHByteVB *HByteVB

type HByteTJ uint8

func (x *HByteTJ) MarshalJSON() ([]byte, error) { return c20Enc("HByteTJ", "json", *x) }
func (x *HByteTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HByteTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HByteTJ) MarshalText() ([]byte, error) { return c20Enc("HByteTJ", "text", x) }
func (x *HByteTJ) UnmarshalText(b []byte) error {
	return c20Dec("HByteTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHByteTJ struct {
	HByteTJ
	Z int
}
type PHByteTJ struct {
	*HByteTJ
	Z int
}
type NHByteTJ *HByteTJ

type HByteNN uint8

type HBoolVJ bool

func (x HBoolVJ) MarshalJSON() ([]byte, error) { return c20Enc("HBoolVJ", "json", x) }
func (x *HBoolVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HBoolVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHBoolVJ struct {
	HBoolVJ
	Z int
}
type PHBoolVJ struct {
	*HBoolVJ
	Z int
}
type NHBoolVJ *HBoolVJ

type HBoolPJ bool

func (x *HBoolPJ) MarshalJSON() ([]byte, error) { return c20Enc("HBoolPJ", "json", *x) }
func (x *HBoolPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HBoolPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHBoolPJ struct {
	HBoolPJ
	Z int
}
type PHBoolPJ struct {
	*HBoolPJ
	Z int
}
type NHBoolPJ *HBoolPJ

type HBoolVT bool

func (x HBoolVT) MarshalText() ([]byte, error) { return c20Enc("HBoolVT", "text", x) }
func (x *HBoolVT) UnmarshalText(b []byte) error {
	return c20Dec("HBoolVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBoolVT struct {
	HBoolVT
	Z int
}
type PHBoolVT struct {
	*HBoolVT
	Z int
}
type NHBoolVT *HBoolVT

type HBoolPT bool

func (x *HBoolPT) MarshalText() ([]byte, error) { return c20Enc("HBoolPT", "text", *x) }
func (x *HBoolPT) UnmarshalText(b []byte) error {
	return c20Dec("HBoolPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBoolPT struct {
	HBoolPT
	Z int
}
type PHBoolPT struct {
	*HBoolPT
	Z int
}
type NHBoolPT *HBoolPT

type HBoolVB bool

func (x HBoolVB) MarshalJSON() ([]byte, error) { return c20Enc("HBoolVB", "json", x) }
func (x *HBoolVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HBoolVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HBoolVB) MarshalText() ([]byte, error) { return c20Enc("HBoolVB", "text", x) }
func (x *HBoolVB) UnmarshalText(b []byte) error {
	return c20Dec("HBoolVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBoolVB struct {
	HBoolVB
	Z int
}
type PHBoolVB struct {
	*HBoolVB
	Z int
}
type NHBoolVB *HBoolVB

type HBoolTJ bool

func (x *HBoolTJ) MarshalJSON() ([]byte, error) { return c20Enc("HBoolTJ", "json", *x) }
func (x *HBoolTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HBoolTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HBoolTJ) MarshalText() ([]byte, error) { return c20Enc("HBoolTJ", "text", x) }
func (x *HBoolTJ) UnmarshalText(b []byte) error {
	return c20Dec("HBoolTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBoolTJ struct {
	HBoolTJ
	Z int
}
type PHBoolTJ struct {
	*HBoolTJ
	Z int
}
type NHBoolTJ *HBoolTJ

type HBoolNN bool

type HF64VJ float64

func (x HF64VJ) MarshalJSON() ([]byte, error) { return c20Enc("HF64VJ", "json", x) }
func (x *HF64VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HF64VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHF64VJ struct {
	HF64VJ
	Z int
}
type PHF64VJ struct {
	*HF64VJ
	Z int
}
type NHF64VJ *HF64VJ

type HF64PJ float64

func (x *HF64PJ) MarshalJSON() ([]byte, error) { return c20Enc("HF64PJ", "json", *x) }
func (x *HF64PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HF64PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHF64PJ struct {
	HF64PJ
	Z int
}
type PHF64PJ struct {
	*HF64PJ
	Z int
}
type NHF64PJ *HF64PJ

type HF64VT float64

func (x HF64VT) MarshalText() ([]byte, error) { return c20Enc("HF64VT", "text", x) }
func (x *HF64VT) UnmarshalText(b []byte) error {
	return c20Dec("HF64VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF64VT struct {
	HF64VT
	Z int
}
type PHF64VT struct {
	*HF64VT
	Z int
}
type NHF64VT *HF64VT

type HF64PT float64

func (x *HF64PT) MarshalText() ([]byte, error) { return c20Enc("HF64PT", "text", *x) }
func (x *HF64PT) UnmarshalText(b []byte) error {
	return c20Dec("HF64PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF64PT struct {
	HF64PT
	Z int
}
type PHF64PT struct {
	*HF64PT
	Z int
}
type NHF64PT *HF64PT

type HF64VB float64

func (x HF64VB) MarshalJSON() ([]byte, error) { return c20Enc("HF64VB", "json", x) }
func (x *HF64VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HF64VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HF64VB) MarshalText() ([]byte, error) { return c20Enc("HF64VB", "text", x) }
func (x *HF64VB) UnmarshalText(b []byte) error {
	return c20Dec("HF64VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF64VB struct {
	HF64VB
	Z int
}
type PHF64VB struct {
	*HF64VB
	Z int
}
type NHF64VB *HF64VB

type HF64TJ float64

func (x *HF64TJ) MarshalJSON() ([]byte, error) { return c20Enc("HF64TJ", "json", *x) }
func (x *HF64TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HF64TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HF64TJ) MarshalText() ([]byte, error) { return c20Enc("HF64TJ", "text", x) }
func (x *HF64TJ) UnmarshalText(b []byte) error {
	return c20Dec("HF64TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF64TJ struct {
	HF64TJ
	Z int
}
type PHF64TJ struct {
	*HF64TJ
	Z int
}
type NHF64TJ *HF64TJ

type HF64NN float64

type HStructVJ struct {
	A int
	B string
}

func (x HStructVJ) MarshalJSON() ([]byte, error) { return c20Enc("HStructVJ", "json", x) }
func (x *HStructVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HStructVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHStructVJ struct {
	HStructVJ
	Z int
}
type PHStructVJ struct {
	*HStructVJ
	Z int
}
type NHStructVJ *HStructVJ

type HStructPJ struct {
	A int
	B string
}

func (x *HStructPJ) MarshalJSON() ([]byte, error) { return c20Enc("HStructPJ", "json", *x) }
func (x *HStructPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HStructPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHStructPJ struct {
	HStructPJ
	Z int
}
type PHStructPJ struct {
	*HStructPJ
	Z int
}
type NHStructPJ *HStructPJ

type HStructVT struct {
	A int
	B string
}

func (x HStructVT) MarshalText() ([]byte, error) { return c20Enc("HStructVT", "text", x) }
func (x *HStructVT) UnmarshalText(b []byte) error {
	return c20Dec("HStructVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStructVT struct {
	HStructVT
	Z int
}
type PHStructVT struct {
	*HStructVT
	Z int
}
type NHStructVT *HStructVT

type HStructPT struct {
	A int
	B string
}

func (x *HStructPT) MarshalText() ([]byte, error) { return c20Enc("HStructPT", "text", *x) }
func (x *HStructPT) UnmarshalText(b []byte) error {
	return c20Dec("HStructPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStructPT struct {
	HStructPT
	Z int
}
type PHStructPT struct {
	*HStructPT
	Z int
}
type NHStructPT *HStructPT

type HStructVB struct {
	A int
	B string
}

func (x HStructVB) MarshalJSON() ([]byte, error) { return c20Enc("HStructVB", "json", x) }
func (x *HStructVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HStructVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HStructVB) MarshalText() ([]byte, error) { return c20Enc("HStructVB", "text", x) }
func (x *HStructVB) UnmarshalText(b []byte) error {
	return c20Dec("HStructVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStructVB struct {
	HStructVB
	Z int
}
type PHStructVB struct {
	*HStructVB
	Z int
}
type NHStructVB *HStructVB

type HStructTJ struct {
	A int
	B string
}

func (x *HStructTJ) MarshalJSON() ([]byte, error) { return c20Enc("HStructTJ", "json", *x) }
func (x *HStructTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HStructTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HStructTJ) MarshalText() ([]byte, error) { return c20Enc("HStructTJ", "text", x) }
func (x *HStructTJ) UnmarshalText(b []byte) error {
	return c20Dec("HStructTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHStructTJ struct {
	HStructTJ
	Z int
}
type PHStructTJ struct {
	*HStructTJ
	Z int
}
type NHStructTJ *HStructTJ

type HStructNN struct {
	A int
	B string
}

type HOneVJ struct{ A int }

func (x HOneVJ) MarshalJSON() ([]byte, error) { return c20Enc("HOneVJ", "json", x) }
func (x *HOneVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HOneVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHOneVJ struct {
	HOneVJ
	Z int
}
type PHOneVJ struct {
	*HOneVJ
	Z int
}
type NHOneVJ *HOneVJ

type HOnePJ struct{ A int }

func (x *HOnePJ) MarshalJSON() ([]byte, error) { return c20Enc("HOnePJ", "json", *x) }
func (x *HOnePJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HOnePJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHOnePJ struct {
	HOnePJ
	Z int
}
type PHOnePJ struct {
	*HOnePJ
	Z int
}
type NHOnePJ *HOnePJ

type HOneVT struct{ A int }

func (x HOneVT) MarshalText() ([]byte, error) { return c20Enc("HOneVT", "text", x) }
func (x *HOneVT) UnmarshalText(b []byte) error {
	return c20Dec("HOneVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHOneVT struct {
	HOneVT
	Z int
}
type PHOneVT struct {
	*HOneVT
	Z int
}
type NHOneVT *HOneVT

type HOnePT struct{ A int }

func (x *HOnePT) MarshalText() ([]byte, error) { return c20Enc("HOnePT", "text", *x) }
func (x *HOnePT) UnmarshalText(b []byte) error {
	return c20Dec("HOnePT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHOnePT struct {
	HOnePT
	Z int
}
type PHOnePT struct {
	*HOnePT
	Z int
}
type NHOnePT *HOnePT

type HOneVB struct{ A int }

func (x HOneVB) MarshalJSON() ([]byte, error) { return c20Enc("HOneVB", "json", x) }
func (x *HOneVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HOneVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HOneVB) MarshalText() ([]byte, error) { return c20Enc("HOneVB", "text", x) }
func (x *HOneVB) UnmarshalText(b []byte) error {
	return c20Dec("HOneVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHOneVB struct {
	HOneVB
	Z int
}
type PHOneVB struct {
	*HOneVB
	Z int
}
type NHOneVB *HOneVB

type HOneTJ struct{ A int }

func (x *HOneTJ) MarshalJSON() ([]byte, error) { return c20Enc("HOneTJ", "json", *x) }
func (x *HOneTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HOneTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HOneTJ) MarshalText() ([]byte, error) { return c20Enc("HOneTJ", "text", x) }
func (x *HOneTJ) UnmarshalText(b []byte) error {
	return c20Dec("HOneTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHOneTJ struct {
	HOneTJ
	Z int
}
type PHOneTJ struct {
	*HOneTJ
	Z int
}
type NHOneTJ *HOneTJ

type HOneNN struct{ A int }

type HPSVJ struct{ P *int }

func (x HPSVJ) MarshalJSON() ([]byte, error) { return c20Enc("HPSVJ", "json", x) }
func (x *HPSVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHPSVJ struct {
	HPSVJ
	Z int
}
type PHPSVJ struct {
	*HPSVJ
	Z int
}
type NHPSVJ *HPSVJ

type HPSPJ struct{ P *int }

func (x *HPSPJ) MarshalJSON() ([]byte, error) { return c20Enc("HPSPJ", "json", *x) }
func (x *HPSPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHPSPJ struct {
	HPSPJ
	Z int
}
type PHPSPJ struct {
	*HPSPJ
	Z int
}
type NHPSPJ *HPSPJ

type HPSVT struct{ P *int }

func (x HPSVT) MarshalText() ([]byte, error) { return c20Enc("HPSVT", "text", x) }
func (x *HPSVT) UnmarshalText(b []byte) error {
	return c20Dec("HPSVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSVT struct {
	HPSVT
	Z int
}
type PHPSVT struct {
	*HPSVT
	Z int
}
type NHPSVT *HPSVT

type HPSPT struct{ P *int }

func (x *HPSPT) MarshalText() ([]byte, error) { return c20Enc("HPSPT", "text", *x) }
func (x *HPSPT) UnmarshalText(b []byte) error {
	return c20Dec("HPSPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSPT struct {
	HPSPT
	Z int
}
type PHPSPT struct {
	*HPSPT
	Z int
}
type NHPSPT *HPSPT

type HPSVB struct{ P *int }

func (x HPSVB) MarshalJSON() ([]byte, error) { return c20Enc("HPSVB", "json", x) }
func (x *HPSVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HPSVB) MarshalText() ([]byte, error) { return c20Enc("HPSVB", "text", x) }
func (x *HPSVB) UnmarshalText(b []byte) error {
	return c20Dec("HPSVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSVB struct {
	HPSVB
	Z int
}
type PHPSVB struct {
	*HPSVB
	Z int
}
type NHPSVB *HPSVB

type HPSTJ struct{ P *int }

func (x *HPSTJ) MarshalJSON() ([]byte, error) { return c20Enc("HPSTJ", "json", *x) }
func (x *HPSTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HPSTJ) MarshalText() ([]byte, error) { return c20Enc("HPSTJ", "text", x) }
func (x *HPSTJ) UnmarshalText(b []byte) error {
	return c20Dec("HPSTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSTJ struct {
	HPSTJ
	Z int
}
type PHPSTJ struct {
	*HPSTJ
	Z int
}
type NHPSTJ *HPSTJ

type HPSNN struct{ P *int }

type HMapVJ map[string]int

func (x HMapVJ) MarshalJSON() ([]byte, error) { return c20Enc("HMapVJ", "json", x) }
func (x *HMapVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HMapVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHMapVJ struct {
	HMapVJ
	Z int
}
type PHMapVJ struct {
	*HMapVJ
	Z int
}
type NHMapVJ *HMapVJ

type HMapPJ map[string]int

func (x *HMapPJ) MarshalJSON() ([]byte, error) { return c20Enc("HMapPJ", "json", *x) }
func (x *HMapPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HMapPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHMapPJ struct {
	HMapPJ
	Z int
}
type PHMapPJ struct {
	*HMapPJ
	Z int
}
type NHMapPJ *HMapPJ

type HMapVT map[string]int

func (x HMapVT) MarshalText() ([]byte, error) { return c20Enc("HMapVT", "text", x) }
func (x *HMapVT) UnmarshalText(b []byte) error {
	return c20Dec("HMapVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHMapVT struct {
	HMapVT
	Z int
}
type PHMapVT struct {
	*HMapVT
	Z int
}
type NHMapVT *HMapVT

type HMapPT map[string]int

func (x *HMapPT) MarshalText() ([]byte, error) { return c20Enc("HMapPT", "text", *x) }
func (x *HMapPT) UnmarshalText(b []byte) error {
	return c20Dec("HMapPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHMapPT struct {
	HMapPT
	Z int
}
type PHMapPT struct {
	*HMapPT
	Z int
}
type NHMapPT *HMapPT

type HMapVB map[string]int

func (x HMapVB) MarshalJSON() ([]byte, error) { return c20Enc("HMapVB", "json", x) }
func (x *HMapVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HMapVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HMapVB) MarshalText() ([]byte, error) { return c20Enc("HMapVB", "text", x) }
func (x *HMapVB) UnmarshalText(b []byte) error {
	return c20Dec("HMapVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHMapVB struct {
	HMapVB
	Z int
}
type PHMapVB struct {
	*HMapVB
	Z int
}
type NHMapVB *HMapVB

type HMapTJ map[string]int

func (x *HMapTJ) MarshalJSON() ([]byte, error) { return c20Enc("HMapTJ", "json", *x) }
func (x *HMapTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HMapTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HMapTJ) MarshalText() ([]byte, error) { return c20Enc("HMapTJ", "text", x) }
func (x *HMapTJ) UnmarshalText(b []byte) error {
	return c20Dec("HMapTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHMapTJ struct {
	HMapTJ
	Z int
}
type PHMapTJ struct {
	*HMapTJ
	Z int
}
type NHMapTJ *HMapTJ

type HMapNN map[string]int

type HSliceVJ []int

func (x HSliceVJ) MarshalJSON() ([]byte, error) { return c20Enc("HSliceVJ", "json", x) }
func (x *HSliceVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSliceVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSliceVJ struct {
	HSliceVJ
	Z int
}
type PHSliceVJ struct {
	*HSliceVJ
	Z int
}
type NHSliceVJ *HSliceVJ

type HSlicePJ []int

func (x *HSlicePJ) MarshalJSON() ([]byte, error) { return c20Enc("HSlicePJ", "json", *x) }
func (x *HSlicePJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSlicePJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSlicePJ struct {
	HSlicePJ
	Z int
}
type PHSlicePJ struct {
	*HSlicePJ
	Z int
}
type NHSlicePJ *HSlicePJ

type HSliceVT []int

func (x HSliceVT) MarshalText() ([]byte, error) { return c20Enc("HSliceVT", "text", x) }
func (x *HSliceVT) UnmarshalText(b []byte) error {
	return c20Dec("HSliceVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSliceVT struct {
	HSliceVT
	Z int
}
type PHSliceVT struct {
	*HSliceVT
	Z int
}
type NHSliceVT *HSliceVT

type HSlicePT []int

func (x *HSlicePT) MarshalText() ([]byte, error) { return c20Enc("HSlicePT", "text", *x) }
func (x *HSlicePT) UnmarshalText(b []byte) error {
	return c20Dec("HSlicePT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSlicePT struct {
	HSlicePT
	Z int
}
type PHSlicePT struct {
	*HSlicePT
	Z int
}
type NHSlicePT *HSlicePT

type HSliceVB []int

func (x HSliceVB) MarshalJSON() ([]byte, error) { return c20Enc("HSliceVB", "json", x) }
func (x *HSliceVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HSliceVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSliceVB) MarshalText() ([]byte, error) { return c20Enc("HSliceVB", "text", x) }
func (x *HSliceVB) UnmarshalText(b []byte) error {
	return c20Dec("HSliceVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSliceVB struct {
	HSliceVB
	Z int
}
type PHSliceVB struct {
	*HSliceVB
	Z int
}
type NHSliceVB *HSliceVB

type HSliceTJ []int

func (x *HSliceTJ) MarshalJSON() ([]byte, error) { return c20Enc("HSliceTJ", "json", *x) }
func (x *HSliceTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSliceTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSliceTJ) MarshalText() ([]byte, error) { return c20Enc("HSliceTJ", "text", x) }
func (x *HSliceTJ) UnmarshalText(b []byte) error {
	return c20Dec("HSliceTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSliceTJ struct {
	HSliceTJ
	Z int
}
type PHSliceTJ struct {
	*HSliceTJ
	Z int
}
type NHSliceTJ *HSliceTJ

type HSliceNN []int

type HArrVJ [2]int

func (x HArrVJ) MarshalJSON() ([]byte, error) { return c20Enc("HArrVJ", "json", x) }
func (x *HArrVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HArrVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHArrVJ struct {
	HArrVJ
	Z int
}
type PHArrVJ struct {
	*HArrVJ
	Z int
}
type NHArrVJ *HArrVJ

type HArrPJ [2]int

func (x *HArrPJ) MarshalJSON() ([]byte, error) { return c20Enc("HArrPJ", "json", *x) }
func (x *HArrPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HArrPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHArrPJ struct {
	HArrPJ
	Z int
}
type PHArrPJ struct {
	*HArrPJ
	Z int
}
type NHArrPJ *HArrPJ

type HArrVT [2]int

func (x HArrVT) MarshalText() ([]byte, error) { return c20Enc("HArrVT", "text", x) }
func (x *HArrVT) UnmarshalText(b []byte) error {
	return c20Dec("HArrVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArrVT struct {
	HArrVT
	Z int
}
type PHArrVT struct {
	*HArrVT
	Z int
}
type NHArrVT *HArrVT

type HArrPT [2]int

func (x *HArrPT) MarshalText() ([]byte, error) { return c20Enc("HArrPT", "text", *x) }
func (x *HArrPT) UnmarshalText(b []byte) error {
	return c20Dec("HArrPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArrPT struct {
	HArrPT
	Z int
}
type PHArrPT struct {
	*HArrPT
	Z int
}
type NHArrPT *HArrPT

type HArrVB [2]int

func (x HArrVB) MarshalJSON() ([]byte, error) { return c20Enc("HArrVB", "json", x) }
func (x *HArrVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HArrVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HArrVB) MarshalText() ([]byte, error) { return c20Enc("HArrVB", "text", x) }
func (x *HArrVB) UnmarshalText(b []byte) error {
	return c20Dec("HArrVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArrVB struct {
	HArrVB
	Z int
}
type PHArrVB struct {
	*HArrVB
	Z int
}
type NHArrVB *HArrVB

type HArrTJ [2]int

func (x *HArrTJ) MarshalJSON() ([]byte, error) { return c20Enc("HArrTJ", "json", *x) }
func (x *HArrTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HArrTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HArrTJ) MarshalText() ([]byte, error) { return c20Enc("HArrTJ", "text", x) }
func (x *HArrTJ) UnmarshalText(b []byte) error {
	return c20Dec("HArrTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArrTJ struct {
	HArrTJ
	Z int
}
type PHArrTJ struct {
	*HArrTJ
	Z int
}
type NHArrTJ *HArrTJ

type HArrNN [2]int

type HPArrVJ [1]*int

func (x HPArrVJ) MarshalJSON() ([]byte, error) { return c20Enc("HPArrVJ", "json", x) }
func (x *HPArrVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPArrVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHPArrVJ struct {
	HPArrVJ
	Z int
}
type PHPArrVJ struct {
	*HPArrVJ
	Z int
}
type NHPArrVJ *HPArrVJ

type HPArrPJ [1]*int

func (x *HPArrPJ) MarshalJSON() ([]byte, error) { return c20Enc("HPArrPJ", "json", *x) }
func (x *HPArrPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPArrPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHPArrPJ struct {
	HPArrPJ
	Z int
}
type PHPArrPJ struct {
	*HPArrPJ
	Z int
}
type NHPArrPJ *HPArrPJ

type HPArrVT [1]*int

func (x HPArrVT) MarshalText() ([]byte, error) { return c20Enc("HPArrVT", "text", x) }
func (x *HPArrVT) UnmarshalText(b []byte) error {
	return c20Dec("HPArrVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPArrVT struct {
	HPArrVT
	Z int
}
type PHPArrVT struct {
	*HPArrVT
	Z int
}
type NHPArrVT *HPArrVT

type HPArrPT [1]*int

func (x *HPArrPT) MarshalText() ([]byte, error) { return c20Enc("HPArrPT", "text", *x) }
func (x *HPArrPT) UnmarshalText(b []byte) error {
	return c20Dec("HPArrPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPArrPT struct {
	HPArrPT
	Z int
}
type PHPArrPT struct {
	*HPArrPT
	Z int
}
type NHPArrPT *HPArrPT

type HPArrVB [1]*int

func (x HPArrVB) MarshalJSON() ([]byte, error) { return c20Enc("HPArrVB", "json", x) }
func (x *HPArrVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HPArrVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HPArrVB) MarshalText() ([]byte, error) { return c20Enc("HPArrVB", "text", x) }
func (x *HPArrVB) UnmarshalText(b []byte) error {
	return c20Dec("HPArrVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPArrVB struct {
	HPArrVB
	Z int
}
type PHPArrVB struct {
	*HPArrVB
	Z int
}
type NHPArrVB *HPArrVB

type HPArrTJ [1]*int

func (x *HPArrTJ) MarshalJSON() ([]byte, error) { return c20Enc("HPArrTJ", "json", *x) }
func (x *HPArrTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPArrTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HPArrTJ) MarshalText() ([]byte, error) { return c20Enc("HPArrTJ", "text", x) }
func (x *HPArrTJ) UnmarshalText(b []byte) error {
	return c20Dec("HPArrTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPArrTJ struct {
	HPArrTJ
	Z int
}
type PHPArrTJ struct {
	*HPArrTJ
	Z int
}
type NHPArrTJ *HPArrTJ

type HPArrNN [1]*int

type HEmptyVJ struct{}

func (x HEmptyVJ) MarshalJSON() ([]byte, error) { return c20Enc("HEmptyVJ", "json", x) }
func (x *HEmptyVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HEmptyVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHEmptyVJ struct {
	HEmptyVJ
	Z int
}
type PHEmptyVJ struct {
	*HEmptyVJ
	Z int
}
type NHEmptyVJ *HEmptyVJ

type HEmptyPJ struct{}

func (x *HEmptyPJ) MarshalJSON() ([]byte, error) { return c20Enc("HEmptyPJ", "json", *x) }
func (x *HEmptyPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HEmptyPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHEmptyPJ struct {
	HEmptyPJ
	Z int
}
type PHEmptyPJ struct {
	*HEmptyPJ
	Z int
}
type NHEmptyPJ *HEmptyPJ

type HEmptyVT struct{}

func (x HEmptyVT) MarshalText() ([]byte, error) { return c20Enc("HEmptyVT", "text", x) }
func (x *HEmptyVT) UnmarshalText(b []byte) error {
	return c20Dec("HEmptyVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHEmptyVT struct {
	HEmptyVT
	Z int
}
type PHEmptyVT struct {
	*HEmptyVT
	Z int
}
type NHEmptyVT *HEmptyVT

type HEmptyPT struct{}

func (x *HEmptyPT) MarshalText() ([]byte, error) { return c20Enc("HEmptyPT", "text", *x) }
func (x *HEmptyPT) UnmarshalText(b []byte) error {
	return c20Dec("HEmptyPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHEmptyPT struct {
	HEmptyPT
	Z int
}
type PHEmptyPT struct {
	*HEmptyPT
	Z int
}
type NHEmptyPT *HEmptyPT

type HEmptyVB struct{}

func (x HEmptyVB) MarshalJSON() ([]byte, error) { return c20Enc("HEmptyVB", "json", x) }
func (x *HEmptyVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HEmptyVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HEmptyVB) MarshalText() ([]byte, error) { return c20Enc("HEmptyVB", "text", x) }
func (x *HEmptyVB) UnmarshalText(b []byte) error {
	return c20Dec("HEmptyVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHEmptyVB struct {
	HEmptyVB
	Z int
}
type PHEmptyVB struct {
	*HEmptyVB
	Z int
}
type NHEmptyVB *HEmptyVB

type HEmptyTJ struct{}

func (x *HEmptyTJ) MarshalJSON() ([]byte, error) { return c20Enc("HEmptyTJ", "json", *x) }
func (x *HEmptyTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HEmptyTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HEmptyTJ) MarshalText() ([]byte, error) { return c20Enc("HEmptyTJ", "text", x) }
func (x *HEmptyTJ) UnmarshalText(b []byte) error {
	return c20Dec("HEmptyTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHEmptyTJ struct {
	HEmptyTJ
	Z int
}
type PHEmptyTJ struct {
	*HEmptyTJ
	Z int
}
type NHEmptyTJ *HEmptyTJ

type HEmptyNN struct{}

type HChanVJ chan int

func (x HChanVJ) MarshalJSON() ([]byte, error) { return c20Enc("HChanVJ", "json", x) }
func (x *HChanVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HChanVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHChanVJ struct {
	HChanVJ
	Z int
}
type PHChanVJ struct {
	*HChanVJ
	Z int
}
type NHChanVJ *HChanVJ

type HChanPJ chan int

func (x *HChanPJ) MarshalJSON() ([]byte, error) { return c20Enc("HChanPJ", "json", *x) }
func (x *HChanPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HChanPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHChanPJ struct {
	HChanPJ
	Z int
}
type PHChanPJ struct {
	*HChanPJ
	Z int
}
type NHChanPJ *HChanPJ

type HChanVT chan int

func (x HChanVT) MarshalText() ([]byte, error) { return c20Enc("HChanVT", "text", x) }
func (x *HChanVT) UnmarshalText(b []byte) error {
	return c20Dec("HChanVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHChanVT struct {
	HChanVT
	Z int
}
type PHChanVT struct {
	*HChanVT
	Z int
}
type NHChanVT *HChanVT

type HChanPT chan int

func (x *HChanPT) MarshalText() ([]byte, error) { return c20Enc("HChanPT", "text", *x) }
func (x *HChanPT) UnmarshalText(b []byte) error {
	return c20Dec("HChanPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHChanPT struct {
	HChanPT
	Z int
}
type PHChanPT struct {
	*HChanPT
	Z int
}
type NHChanPT *HChanPT

type HChanVB chan int

func (x HChanVB) MarshalJSON() ([]byte, error) { return c20Enc("HChanVB", "json", x) }
func (x *HChanVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HChanVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HChanVB) MarshalText() ([]byte, error) { return c20Enc("HChanVB", "text", x) }
func (x *HChanVB) UnmarshalText(b []byte) error {
	return c20Dec("HChanVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHChanVB struct {
	HChanVB
	Z int
}
type PHChanVB struct {
	*HChanVB
	Z int
}
type NHChanVB *HChanVB

type HChanTJ chan int

func (x *HChanTJ) MarshalJSON() ([]byte, error) { return c20Enc("HChanTJ", "json", *x) }
func (x *HChanTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HChanTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HChanTJ) MarshalText() ([]byte, error) { return c20Enc("HChanTJ", "text", x) }
func (x *HChanTJ) UnmarshalText(b []byte) error {
	return c20Dec("HChanTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHChanTJ struct {
	HChanTJ
	Z int
}
type PHChanTJ struct {
	*HChanTJ
	Z int
}
type NHChanTJ *HChanTJ

type HChanNN chan int

type HZArrVJ [0]int

func (x HZArrVJ) MarshalJSON() ([]byte, error) { return c20Enc("HZArrVJ", "json", x) }
func (x *HZArrVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZArrVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHZArrVJ struct {
	HZArrVJ
	Z int
}
type PHZArrVJ struct {
	*HZArrVJ
	Z int
}
type NHZArrVJ *HZArrVJ

type HZArrPJ [0]int

func (x *HZArrPJ) MarshalJSON() ([]byte, error) { return c20Enc("HZArrPJ", "json", *x) }
func (x *HZArrPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZArrPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHZArrPJ struct {
	HZArrPJ
	Z int
}
type PHZArrPJ struct {
	*HZArrPJ
	Z int
}
type NHZArrPJ *HZArrPJ

type HZArrVT [0]int

func (x HZArrVT) MarshalText() ([]byte, error) { return c20Enc("HZArrVT", "text", x) }
func (x *HZArrVT) UnmarshalText(b []byte) error {
	return c20Dec("HZArrVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZArrVT struct {
	HZArrVT
	Z int
}
type PHZArrVT struct {
	*HZArrVT
	Z int
}
type NHZArrVT *HZArrVT

type HZArrPT [0]int

func (x *HZArrPT) MarshalText() ([]byte, error) { return c20Enc("HZArrPT", "text", *x) }
func (x *HZArrPT) UnmarshalText(b []byte) error {
	return c20Dec("HZArrPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZArrPT struct {
	HZArrPT
	Z int
}
type PHZArrPT struct {
	*HZArrPT
	Z int
}
type NHZArrPT *HZArrPT

type HZArrVB [0]int

func (x HZArrVB) MarshalJSON() ([]byte, error) { return c20Enc("HZArrVB", "json", x) }
func (x *HZArrVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HZArrVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HZArrVB) MarshalText() ([]byte, error) { return c20Enc("HZArrVB", "text", x) }
func (x *HZArrVB) UnmarshalText(b []byte) error {
	return c20Dec("HZArrVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZArrVB struct {
	HZArrVB
	Z int
}
type PHZArrVB struct {
	*HZArrVB
	Z int
}
type NHZArrVB *HZArrVB

type HZArrTJ [0]int

func (x *HZArrTJ) MarshalJSON() ([]byte, error) { return c20Enc("HZArrTJ", "json", *x) }
func (x *HZArrTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZArrTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HZArrTJ) MarshalText() ([]byte, error) { return c20Enc("HZArrTJ", "text", x) }
func (x *HZArrTJ) UnmarshalText(b []byte) error {
	return c20Dec("HZArrTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZArrTJ struct {
	HZArrTJ
	Z int
}
type PHZArrTJ struct {
	*HZArrTJ
	Z int
}
type NHZArrTJ *HZArrTJ

type HZArrNN [0]int

type HZPArrVJ [0]*int

func (x HZPArrVJ) MarshalJSON() ([]byte, error) { return c20Enc("HZPArrVJ", "json", x) }
func (x *HZPArrVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZPArrVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHZPArrVJ struct {
	HZPArrVJ
	Z int
}
type PHZPArrVJ struct {
	*HZPArrVJ
	Z int
}
type NHZPArrVJ *HZPArrVJ

type HZPArrPJ [0]*int

func (x *HZPArrPJ) MarshalJSON() ([]byte, error) { return c20Enc("HZPArrPJ", "json", *x) }
func (x *HZPArrPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZPArrPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHZPArrPJ struct {
	HZPArrPJ
	Z int
}
type PHZPArrPJ struct {
	*HZPArrPJ
	Z int
}
type NHZPArrPJ *HZPArrPJ

type HZPArrVT [0]*int

func (x HZPArrVT) MarshalText() ([]byte, error) { return c20Enc("HZPArrVT", "text", x) }
func (x *HZPArrVT) UnmarshalText(b []byte) error {
	return c20Dec("HZPArrVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZPArrVT struct {
	HZPArrVT
	Z int
}
type PHZPArrVT struct {
	*HZPArrVT
	Z int
}
type NHZPArrVT *HZPArrVT

type HZPArrPT [0]*int

func (x *HZPArrPT) MarshalText() ([]byte, error) { return c20Enc("HZPArrPT", "text", *x) }
func (x *HZPArrPT) UnmarshalText(b []byte) error {
	return c20Dec("HZPArrPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZPArrPT struct {
	HZPArrPT
	Z int
}
type PHZPArrPT struct {
	*HZPArrPT
	Z int
}
type NHZPArrPT *HZPArrPT

type HZPArrVB [0]*int

func (x HZPArrVB) MarshalJSON() ([]byte, error) { return c20Enc("HZPArrVB", "json", x) }
func (x *HZPArrVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HZPArrVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HZPArrVB) MarshalText() ([]byte, error) { return c20Enc("HZPArrVB", "text", x) }
func (x *HZPArrVB) UnmarshalText(b []byte) error {
	return c20Dec("HZPArrVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZPArrVB struct {
	HZPArrVB
	Z int
}
type PHZPArrVB struct {
	*HZPArrVB
	Z int
}
type NHZPArrVB *HZPArrVB

type HZPArrTJ [0]*int

func (x *HZPArrTJ) MarshalJSON() ([]byte, error) { return c20Enc("HZPArrTJ", "json", *x) }
func (x *HZPArrTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZPArrTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HZPArrTJ) MarshalText() ([]byte, error) { return c20Enc("HZPArrTJ", "text", x) }
func (x *HZPArrTJ) UnmarshalText(b []byte) error {
	return c20Dec("HZPArrTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZPArrTJ struct {
	HZPArrTJ
	Z int
}
type PHZPArrTJ struct {
	*HZPArrTJ
	Z int
}
type NHZPArrTJ *HZPArrTJ

type HZPArrNN [0]*int

type HI16VJ int16

func (x HI16VJ) MarshalJSON() ([]byte, error) { return c20Enc("HI16VJ", "json", x) }
func (x *HI16VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI16VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI16VJ struct {
	HI16VJ
	Z int
}
type PHI16VJ struct {
	*HI16VJ
	Z int
}
type NHI16VJ *HI16VJ

type HI16PJ int16

func (x *HI16PJ) MarshalJSON() ([]byte, error) { return c20Enc("HI16PJ", "json", *x) }
func (x *HI16PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI16PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI16PJ struct {
	HI16PJ
	Z int
}
type PHI16PJ struct {
	*HI16PJ
	Z int
}
type NHI16PJ *HI16PJ

type HI16VT int16

func (x HI16VT) MarshalText() ([]byte, error) { return c20Enc("HI16VT", "text", x) }
func (x *HI16VT) UnmarshalText(b []byte) error {
	return c20Dec("HI16VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI16VT struct {
	HI16VT
	Z int
}
type PHI16VT struct {
	*HI16VT
	Z int
}
type NHI16VT *HI16VT

type HI16PT int16

func (x *HI16PT) MarshalText() ([]byte, error) { return c20Enc("HI16PT", "text", *x) }
func (x *HI16PT) UnmarshalText(b []byte) error {
	return c20Dec("HI16PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI16PT struct {
	HI16PT
	Z int
}
type PHI16PT struct {
	*HI16PT
	Z int
}
type NHI16PT *HI16PT

type HI16VB int16

func (x HI16VB) MarshalJSON() ([]byte, error) { return c20Enc("HI16VB", "json", x) }
func (x *HI16VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HI16VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI16VB) MarshalText() ([]byte, error) { return c20Enc("HI16VB", "text", x) }
func (x *HI16VB) UnmarshalText(b []byte) error {
	return c20Dec("HI16VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI16VB struct {
	HI16VB
	Z int
}
type PHI16VB struct {
	*HI16VB
	Z int
}
type NHI16VB *HI16VB

type HI16TJ int16

func (x *HI16TJ) MarshalJSON() ([]byte, error) { return c20Enc("HI16TJ", "json", *x) }
func (x *HI16TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI16TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI16TJ) MarshalText() ([]byte, error) { return c20Enc("HI16TJ", "text", x) }
func (x *HI16TJ) UnmarshalText(b []byte) error {
	return c20Dec("HI16TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI16TJ struct {
	HI16TJ
	Z int
}
type PHI16TJ struct {
	*HI16TJ
	Z int
}
type NHI16TJ *HI16TJ

type HI16NN int16

type HU32VJ uint32

func (x HU32VJ) MarshalJSON() ([]byte, error) { return c20Enc("HU32VJ", "json", x) }
func (x *HU32VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU32VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHU32VJ struct {
	HU32VJ
	Z int
}
type PHU32VJ struct {
	*HU32VJ
	Z int
}
type NHU32VJ *HU32VJ

type HU32PJ uint32

func (x *HU32PJ) MarshalJSON() ([]byte, error) { return c20Enc("HU32PJ", "json", *x) }
func (x *HU32PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU32PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHU32PJ struct {
	HU32PJ
	Z int
}
type PHU32PJ struct {
	*HU32PJ
	Z int
}
type NHU32PJ *HU32PJ

type HU32VT uint32

func (x HU32VT) MarshalText() ([]byte, error) { return c20Enc("HU32VT", "text", x) }
func (x *HU32VT) UnmarshalText(b []byte) error {
	return c20Dec("HU32VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU32VT struct {
	HU32VT
	Z int
}
type PHU32VT struct {
	*HU32VT
	Z int
}
type NHU32VT *HU32VT

type HU32PT uint32

func (x *HU32PT) MarshalText() ([]byte, error) { return c20Enc("HU32PT", "text", *x) }
func (x *HU32PT) UnmarshalText(b []byte) error {
	return c20Dec("HU32PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU32PT struct {
	HU32PT
	Z int
}
type PHU32PT struct {
	*HU32PT
	Z int
}
type NHU32PT *HU32PT

type HU32VB uint32

func (x HU32VB) MarshalJSON() ([]byte, error) { return c20Enc("HU32VB", "json", x) }
func (x *HU32VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HU32VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HU32VB) MarshalText() ([]byte, error) { return c20Enc("HU32VB", "text", x) }
func (x *HU32VB) UnmarshalText(b []byte) error {
	return c20Dec("HU32VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU32VB struct {
	HU32VB
	Z int
}
type PHU32VB struct {
	*HU32VB
	Z int
}
type NHU32VB *HU32VB

type HU32TJ uint32

func (x *HU32TJ) MarshalJSON() ([]byte, error) { return c20Enc("HU32TJ", "json", *x) }
func (x *HU32TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU32TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HU32TJ) MarshalText() ([]byte, error) { return c20Enc("HU32TJ", "text", x) }
func (x *HU32TJ) UnmarshalText(b []byte) error {
	return c20Dec("HU32TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU32TJ struct {
	HU32TJ
	Z int
}
type PHU32TJ struct {
	*HU32TJ
	Z int
}
type NHU32TJ *HU32TJ

type HU32NN uint32

type HF32VJ float32

func (x HF32VJ) MarshalJSON() ([]byte, error) { return c20Enc("HF32VJ", "json", x) }
func (x *HF32VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HF32VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHF32VJ struct {
	HF32VJ
	Z int
}
type PHF32VJ struct {
	*HF32VJ
	Z int
}
type NHF32VJ *HF32VJ

type HF32PJ float32

func (x *HF32PJ) MarshalJSON() ([]byte, error) { return c20Enc("HF32PJ", "json", *x) }
func (x *HF32PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HF32PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHF32PJ struct {
	HF32PJ
	Z int
}
type PHF32PJ struct {
	*HF32PJ
	Z int
}
type NHF32PJ *HF32PJ

type HF32VT float32

func (x HF32VT) MarshalText() ([]byte, error) { return c20Enc("HF32VT", "text", x) }
func (x *HF32VT) UnmarshalText(b []byte) error {
	return c20Dec("HF32VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF32VT struct {
	HF32VT
	Z int
}
type PHF32VT struct {
	*HF32VT
	Z int
}
type NHF32VT *HF32VT

type HF32PT float32

func (x *HF32PT) MarshalText() ([]byte, error) { return c20Enc("HF32PT", "text", *x) }
func (x *HF32PT) UnmarshalText(b []byte) error {
	return c20Dec("HF32PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF32PT struct {
	HF32PT
	Z int
}
type PHF32PT struct {
	*HF32PT
	Z int
}
type NHF32PT *HF32PT

type HF32VB float32

func (x HF32VB) MarshalJSON() ([]byte, error) { return c20Enc("HF32VB", "json", x) }
func (x *HF32VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HF32VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HF32VB) MarshalText() ([]byte, error) { return c20Enc("HF32VB", "text", x) }
func (x *HF32VB) UnmarshalText(b []byte) error {
	return c20Dec("HF32VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF32VB struct {
	HF32VB
	Z int
}
type PHF32VB struct {
	*HF32VB
	Z int
}
type NHF32VB *HF32VB

type HF32TJ float32

func (x *HF32TJ) MarshalJSON() ([]byte, error) { return c20Enc("HF32TJ", "json", *x) }
func (x *HF32TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HF32TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HF32TJ) MarshalText() ([]byte, error) { return c20Enc("HF32TJ", "text", x) }
func (x *HF32TJ) UnmarshalText(b []byte) error {
	return c20Dec("HF32TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHF32TJ struct {
	HF32TJ
	Z int
}
type PHF32TJ struct {
	*HF32TJ
	Z int
}
type NHF32TJ *HF32TJ

type HF32NN float32

type HI8VJ int8

func (x HI8VJ) MarshalJSON() ([]byte, error) { return c20Enc("HI8VJ", "json", x) }
func (x *HI8VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI8VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI8VJ struct {
	HI8VJ
	Z int
}
type PHI8VJ struct {
	*HI8VJ
	Z int
}
type NHI8VJ *HI8VJ

type HI8PJ int8

func (x *HI8PJ) MarshalJSON() ([]byte, error) { return c20Enc("HI8PJ", "json", *x) }
func (x *HI8PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI8PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI8PJ struct {
	HI8PJ
	Z int
}
type PHI8PJ struct {
	*HI8PJ
	Z int
}
type NHI8PJ *HI8PJ

type HI8VT int8

func (x HI8VT) MarshalText() ([]byte, error) { return c20Enc("HI8VT", "text", x) }
func (x *HI8VT) UnmarshalText(b []byte) error {
	return c20Dec("HI8VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI8VT struct {
	HI8VT
	Z int
}
type PHI8VT struct {
	*HI8VT
	Z int
}
type NHI8VT *HI8VT

type HI8PT int8

func (x *HI8PT) MarshalText() ([]byte, error) { return c20Enc("HI8PT", "text", *x) }
func (x *HI8PT) UnmarshalText(b []byte) error {
	return c20Dec("HI8PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI8PT struct {
	HI8PT
	Z int
}
type PHI8PT struct {
	*HI8PT
	Z int
}
type NHI8PT *HI8PT

type HI8VB int8

func (x HI8VB) MarshalJSON() ([]byte, error) { return c20Enc("HI8VB", "json", x) }
func (x *HI8VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HI8VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI8VB) MarshalText() ([]byte, error) { return c20Enc("HI8VB", "text", x) }
func (x *HI8VB) UnmarshalText(b []byte) error {
	return c20Dec("HI8VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI8VB struct {
	HI8VB
	Z int
}
type PHI8VB struct {
	*HI8VB
	Z int
}
type NHI8VB *HI8VB

type HI8TJ int8

func (x *HI8TJ) MarshalJSON() ([]byte, error) { return c20Enc("HI8TJ", "json", *x) }
func (x *HI8TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI8TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI8TJ) MarshalText() ([]byte, error) { return c20Enc("HI8TJ", "text", x) }
func (x *HI8TJ) UnmarshalText(b []byte) error {
	return c20Dec("HI8TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI8TJ struct {
	HI8TJ
	Z int
}
type PHI8TJ struct {
	*HI8TJ
	Z int
}
type NHI8TJ *HI8TJ

type HI8NN int8

type HI32VJ int32

func (x HI32VJ) MarshalJSON() ([]byte, error) { return c20Enc("HI32VJ", "json", x) }
func (x *HI32VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI32VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI32VJ struct {
	HI32VJ
	Z int
}
type PHI32VJ struct {
	*HI32VJ
	Z int
}
type NHI32VJ *HI32VJ

type HI32PJ int32

func (x *HI32PJ) MarshalJSON() ([]byte, error) { return c20Enc("HI32PJ", "json", *x) }
func (x *HI32PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI32PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI32PJ struct {
	HI32PJ
	Z int
}
type PHI32PJ struct {
	*HI32PJ
	Z int
}
type NHI32PJ *HI32PJ

type HI32VT int32

func (x HI32VT) MarshalText() ([]byte, error) { return c20Enc("HI32VT", "text", x) }
func (x *HI32VT) UnmarshalText(b []byte) error {
	return c20Dec("HI32VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI32VT struct {
	HI32VT
	Z int
}
type PHI32VT struct {
	*HI32VT
	Z int
}
type NHI32VT *HI32VT

type HI32PT int32

func (x *HI32PT) MarshalText() ([]byte, error) { return c20Enc("HI32PT", "text", *x) }
func (x *HI32PT) UnmarshalText(b []byte) error {
	return c20Dec("HI32PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI32PT struct {
	HI32PT
	Z int
}
type PHI32PT struct {
	*HI32PT
	Z int
}
type NHI32PT *HI32PT

type HI32VB int32

func (x HI32VB) MarshalJSON() ([]byte, error) { return c20Enc("HI32VB", "json", x) }
func (x *HI32VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HI32VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI32VB) MarshalText() ([]byte, error) { return c20Enc("HI32VB", "text", x) }
func (x *HI32VB) UnmarshalText(b []byte) error {
	return c20Dec("HI32VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI32VB struct {
	HI32VB
	Z int
}
type PHI32VB struct {
	*HI32VB
	Z int
}
type NHI32VB *HI32VB

type HI32TJ int32

func (x *HI32TJ) MarshalJSON() ([]byte, error) { return c20Enc("HI32TJ", "json", *x) }
func (x *HI32TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI32TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI32TJ) MarshalText() ([]byte, error) { return c20Enc("HI32TJ", "text", x) }
func (x *HI32TJ) UnmarshalText(b []byte) error {
	return c20Dec("HI32TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI32TJ struct {
	HI32TJ
	Z int
}
type PHI32TJ struct {
	*HI32TJ
	Z int
}
type NHI32TJ *HI32TJ

type HI32NN int32

type HI64VJ int64

func (x HI64VJ) MarshalJSON() ([]byte, error) { return c20Enc("HI64VJ", "json", x) }
func (x *HI64VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI64VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI64VJ struct {
	HI64VJ
	Z int
}
type PHI64VJ struct {
	*HI64VJ
	Z int
}
type NHI64VJ *HI64VJ

type HI64PJ int64

func (x *HI64PJ) MarshalJSON() ([]byte, error) { return c20Enc("HI64PJ", "json", *x) }
func (x *HI64PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI64PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHI64PJ struct {
	HI64PJ
	Z int
}
type PHI64PJ struct {
	*HI64PJ
	Z int
}
type NHI64PJ *HI64PJ

type HI64VT int64

func (x HI64VT) MarshalText() ([]byte, error) { return c20Enc("HI64VT", "text", x) }
func (x *HI64VT) UnmarshalText(b []byte) error {
	return c20Dec("HI64VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI64VT struct {
	HI64VT
	Z int
}
type PHI64VT struct {
	*HI64VT
	Z int
}
type NHI64VT *HI64VT

type HI64PT int64

func (x *HI64PT) MarshalText() ([]byte, error) { return c20Enc("HI64PT", "text", *x) }
func (x *HI64PT) UnmarshalText(b []byte) error {
	return c20Dec("HI64PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI64PT struct {
	HI64PT
	Z int
}
type PHI64PT struct {
	*HI64PT
	Z int
}
type NHI64PT *HI64PT

type HI64VB int64

func (x HI64VB) MarshalJSON() ([]byte, error) { return c20Enc("HI64VB", "json", x) }
func (x *HI64VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HI64VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI64VB) MarshalText() ([]byte, error) { return c20Enc("HI64VB", "text", x) }
func (x *HI64VB) UnmarshalText(b []byte) error {
	return c20Dec("HI64VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI64VB struct {
	HI64VB
	Z int
}
type PHI64VB struct {
	*HI64VB
	Z int
}
type NHI64VB *HI64VB

type HI64TJ int64

func (x *HI64TJ) MarshalJSON() ([]byte, error) { return c20Enc("HI64TJ", "json", *x) }
func (x *HI64TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HI64TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HI64TJ) MarshalText() ([]byte, error) { return c20Enc("HI64TJ", "text", x) }
func (x *HI64TJ) UnmarshalText(b []byte) error {
	return c20Dec("HI64TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHI64TJ struct {
	HI64TJ
	Z int
}
type PHI64TJ struct {
	*HI64TJ
	Z int
}
type NHI64TJ *HI64TJ

type HI64NN int64

type HUVJ uint

func (x HUVJ) MarshalJSON() ([]byte, error) { return c20Enc("HUVJ", "json", x) }
func (x *HUVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HUVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHUVJ struct {
	HUVJ
	Z int
}
type PHUVJ struct {
	*HUVJ
	Z int
}
type NHUVJ *HUVJ

type HUPJ uint

func (x *HUPJ) MarshalJSON() ([]byte, error) { return c20Enc("HUPJ", "json", *x) }
func (x *HUPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HUPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHUPJ struct {
	HUPJ
	Z int
}
type PHUPJ struct {
	*HUPJ
	Z int
}
type NHUPJ *HUPJ

type HUVT uint

func (x HUVT) MarshalText() ([]byte, error) { return c20Enc("HUVT", "text", x) }
func (x *HUVT) UnmarshalText(b []byte) error {
	return c20Dec("HUVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUVT struct {
	HUVT
	Z int
}
type PHUVT struct {
	*HUVT
	Z int
}
type NHUVT *HUVT

type HUPT uint

func (x *HUPT) MarshalText() ([]byte, error) { return c20Enc("HUPT", "text", *x) }
func (x *HUPT) UnmarshalText(b []byte) error {
	return c20Dec("HUPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUPT struct {
	HUPT
	Z int
}
type PHUPT struct {
	*HUPT
	Z int
}
type NHUPT *HUPT

type HUVB uint

func (x HUVB) MarshalJSON() ([]byte, error) { return c20Enc("HUVB", "json", x) }
func (x *HUVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HUVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HUVB) MarshalText() ([]byte, error) { return c20Enc("HUVB", "text", x) }
func (x *HUVB) UnmarshalText(b []byte) error {
	return c20Dec("HUVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUVB struct {
	HUVB
	Z int
}
type PHUVB struct {
	*HUVB
	Z int
}
type NHUVB *HUVB

type HUTJ uint

func (x *HUTJ) MarshalJSON() ([]byte, error) { return c20Enc("HUTJ", "json", *x) }
func (x *HUTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HUTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HUTJ) MarshalText() ([]byte, error) { return c20Enc("HUTJ", "text", x) }
func (x *HUTJ) UnmarshalText(b []byte) error {
	return c20Dec("HUTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUTJ struct {
	HUTJ
	Z int
}
type PHUTJ struct {
	*HUTJ
	Z int
}
type NHUTJ *HUTJ

type HUNN uint

type HU16VJ uint16

func (x HU16VJ) MarshalJSON() ([]byte, error) { return c20Enc("HU16VJ", "json", x) }
func (x *HU16VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU16VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHU16VJ struct {
	HU16VJ
	Z int
}
type PHU16VJ struct {
	*HU16VJ
	Z int
}
type NHU16VJ *HU16VJ

type HU16PJ uint16

func (x *HU16PJ) MarshalJSON() ([]byte, error) { return c20Enc("HU16PJ", "json", *x) }
func (x *HU16PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU16PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHU16PJ struct {
	HU16PJ
	Z int
}
type PHU16PJ struct {
	*HU16PJ
	Z int
}
type NHU16PJ *HU16PJ

type HU16VT uint16

func (x HU16VT) MarshalText() ([]byte, error) { return c20Enc("HU16VT", "text", x) }
func (x *HU16VT) UnmarshalText(b []byte) error {
	return c20Dec("HU16VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU16VT struct {
	HU16VT
	Z int
}
type PHU16VT struct {
	*HU16VT
	Z int
}
type NHU16VT *HU16VT

type HU16PT uint16

func (x *HU16PT) MarshalText() ([]byte, error) { return c20Enc("HU16PT", "text", *x) }
func (x *HU16PT) UnmarshalText(b []byte) error {
	return c20Dec("HU16PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU16PT struct {
	HU16PT
	Z int
}
type PHU16PT struct {
	*HU16PT
	Z int
}
type NHU16PT *HU16PT

type HU16VB uint16

func (x HU16VB) MarshalJSON() ([]byte, error) { return c20Enc("HU16VB", "json", x) }
func (x *HU16VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HU16VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HU16VB) MarshalText() ([]byte, error) { return c20Enc("HU16VB", "text", x) }
func (x *HU16VB) UnmarshalText(b []byte) error {
	return c20Dec("HU16VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU16VB struct {
	HU16VB
	Z int
}
type PHU16VB struct {
	*HU16VB
	Z int
}
type NHU16VB *HU16VB

type HU16TJ uint16

func (x *HU16TJ) MarshalJSON() ([]byte, error) { return c20Enc("HU16TJ", "json", *x) }
func (x *HU16TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU16TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HU16TJ) MarshalText() ([]byte, error) { return c20Enc("HU16TJ", "text", x) }
func (x *HU16TJ) UnmarshalText(b []byte) error {
	return c20Dec("HU16TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU16TJ struct {
	HU16TJ
	Z int
}
type PHU16TJ struct {
	*HU16TJ
	Z int
}
type NHU16TJ *HU16TJ

type HU16NN uint16

type HU64VJ uint64

func (x HU64VJ) MarshalJSON() ([]byte, error) { return c20Enc("HU64VJ", "json", x) }
func (x *HU64VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU64VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHU64VJ struct {
	HU64VJ
	Z int
}
type PHU64VJ struct {
	*HU64VJ
	Z int
}
type NHU64VJ *HU64VJ

type HU64PJ uint64

func (x *HU64PJ) MarshalJSON() ([]byte, error) { return c20Enc("HU64PJ", "json", *x) }
func (x *HU64PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU64PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHU64PJ struct {
	HU64PJ
	Z int
}
type PHU64PJ struct {
	*HU64PJ
	Z int
}
type NHU64PJ *HU64PJ

type HU64VT uint64

func (x HU64VT) MarshalText() ([]byte, error) { return c20Enc("HU64VT", "text", x) }
func (x *HU64VT) UnmarshalText(b []byte) error {
	return c20Dec("HU64VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU64VT struct {
	HU64VT
	Z int
}
type PHU64VT struct {
	*HU64VT
	Z int
}
type NHU64VT *HU64VT

type HU64PT uint64

func (x *HU64PT) MarshalText() ([]byte, error) { return c20Enc("HU64PT", "text", *x) }
func (x *HU64PT) UnmarshalText(b []byte) error {
	return c20Dec("HU64PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU64PT struct {
	HU64PT
	Z int
}
type PHU64PT struct {
	*HU64PT
	Z int
}
type NHU64PT *HU64PT

type HU64VB uint64

func (x HU64VB) MarshalJSON() ([]byte, error) { return c20Enc("HU64VB", "json", x) }
func (x *HU64VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HU64VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HU64VB) MarshalText() ([]byte, error) { return c20Enc("HU64VB", "text", x) }
func (x *HU64VB) UnmarshalText(b []byte) error {
	return c20Dec("HU64VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU64VB struct {
	HU64VB
	Z int
}
type PHU64VB struct {
	*HU64VB
	Z int
}
type NHU64VB *HU64VB

type HU64TJ uint64

func (x *HU64TJ) MarshalJSON() ([]byte, error) { return c20Enc("HU64TJ", "json", *x) }
func (x *HU64TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HU64TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HU64TJ) MarshalText() ([]byte, error) { return c20Enc("HU64TJ", "text", x) }
func (x *HU64TJ) UnmarshalText(b []byte) error {
	return c20Dec("HU64TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHU64TJ struct {
	HU64TJ
	Z int
}
type PHU64TJ struct {
	*HU64TJ
	Z int
}
type NHU64TJ *HU64TJ

type HU64NN uint64

type HUptrVJ uintptr

func (x HUptrVJ) MarshalJSON() ([]byte, error) { return c20Enc("HUptrVJ", "json", x) }
func (x *HUptrVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HUptrVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHUptrVJ struct {
	HUptrVJ
	Z int
}
type PHUptrVJ struct {
	*HUptrVJ
	Z int
}
type NHUptrVJ *HUptrVJ

type HUptrPJ uintptr

func (x *HUptrPJ) MarshalJSON() ([]byte, error) { return c20Enc("HUptrPJ", "json", *x) }
func (x *HUptrPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HUptrPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHUptrPJ struct {
	HUptrPJ
	Z int
}
type PHUptrPJ struct {
	*HUptrPJ
	Z int
}
type NHUptrPJ *HUptrPJ

type HUptrVT uintptr

func (x HUptrVT) MarshalText() ([]byte, error) { return c20Enc("HUptrVT", "text", x) }
func (x *HUptrVT) UnmarshalText(b []byte) error {
	return c20Dec("HUptrVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUptrVT struct {
	HUptrVT
	Z int
}
type PHUptrVT struct {
	*HUptrVT
	Z int
}
type NHUptrVT *HUptrVT

type HUptrPT uintptr

func (x *HUptrPT) MarshalText() ([]byte, error) { return c20Enc("HUptrPT", "text", *x) }
func (x *HUptrPT) UnmarshalText(b []byte) error {
	return c20Dec("HUptrPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUptrPT struct {
	HUptrPT
	Z int
}
type PHUptrPT struct {
	*HUptrPT
	Z int
}
type NHUptrPT *HUptrPT

type HUptrVB uintptr

func (x HUptrVB) MarshalJSON() ([]byte, error) { return c20Enc("HUptrVB", "json", x) }
func (x *HUptrVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HUptrVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HUptrVB) MarshalText() ([]byte, error) { return c20Enc("HUptrVB", "text", x) }
func (x *HUptrVB) UnmarshalText(b []byte) error {
	return c20Dec("HUptrVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUptrVB struct {
	HUptrVB
	Z int
}
type PHUptrVB struct {
	*HUptrVB
	Z int
}
type NHUptrVB *HUptrVB

type HUptrTJ uintptr

func (x *HUptrTJ) MarshalJSON() ([]byte, error) { return c20Enc("HUptrTJ", "json", *x) }
func (x *HUptrTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HUptrTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HUptrTJ) MarshalText() ([]byte, error) { return c20Enc("HUptrTJ", "text", x) }
func (x *HUptrTJ) UnmarshalText(b []byte) error {
	return c20Dec("HUptrTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHUptrTJ struct {
	HUptrTJ
	Z int
}
type PHUptrTJ struct {
	*HUptrTJ
	Z int
}
type NHUptrTJ *HUptrTJ

type HUptrNN uintptr

type HC128VJ complex128

func (x HC128VJ) MarshalJSON() ([]byte, error) { return c20Enc("HC128VJ", "json", x) }
func (x *HC128VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HC128VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHC128VJ struct {
	HC128VJ
	Z int
}
type PHC128VJ struct {
	*HC128VJ
	Z int
}
type NHC128VJ *HC128VJ

type HC128PJ complex128

func (x *HC128PJ) MarshalJSON() ([]byte, error) { return c20Enc("HC128PJ", "json", *x) }
func (x *HC128PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HC128PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHC128PJ struct {
	HC128PJ
	Z int
}
type PHC128PJ struct {
	*HC128PJ
	Z int
}
type NHC128PJ *HC128PJ

type HC128VT complex128

func (x HC128VT) MarshalText() ([]byte, error) { return c20Enc("HC128VT", "text", x) }
func (x *HC128VT) UnmarshalText(b []byte) error {
	return c20Dec("HC128VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHC128VT struct {
	HC128VT
	Z int
}
type PHC128VT struct {
	*HC128VT
	Z int
}
type NHC128VT *HC128VT

type HC128PT complex128

func (x *HC128PT) MarshalText() ([]byte, error) { return c20Enc("HC128PT", "text", *x) }
func (x *HC128PT) UnmarshalText(b []byte) error {
	return c20Dec("HC128PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHC128PT struct {
	HC128PT
	Z int
}
type PHC128PT struct {
	*HC128PT
	Z int
}
type NHC128PT *HC128PT

type HC128VB complex128

func (x HC128VB) MarshalJSON() ([]byte, error) { return c20Enc("HC128VB", "json", x) }
func (x *HC128VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HC128VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HC128VB) MarshalText() ([]byte, error) { return c20Enc("HC128VB", "text", x) }
func (x *HC128VB) UnmarshalText(b []byte) error {
	return c20Dec("HC128VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHC128VB struct {
	HC128VB
	Z int
}
type PHC128VB struct {
	*HC128VB
	Z int
}
type NHC128VB *HC128VB

type HC128TJ complex128

func (x *HC128TJ) MarshalJSON() ([]byte, error) { return c20Enc("HC128TJ", "json", *x) }
func (x *HC128TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HC128TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HC128TJ) MarshalText() ([]byte, error) { return c20Enc("HC128TJ", "text", x) }
func (x *HC128TJ) UnmarshalText(b []byte) error {
	return c20Dec("HC128TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHC128TJ struct {
	HC128TJ
	Z int
}
type PHC128TJ struct {
	*HC128TJ
	Z int
}
type NHC128TJ *HC128TJ

type HC128NN complex128

type HBytesVJ []byte

func (x HBytesVJ) MarshalJSON() ([]byte, error) { return c20Enc("HBytesVJ", "json", x) }
func (x *HBytesVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HBytesVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHBytesVJ struct {
	HBytesVJ
	Z int
}
type PHBytesVJ struct {
	*HBytesVJ
	Z int
}
type NHBytesVJ *HBytesVJ

type HBytesPJ []byte

func (x *HBytesPJ) MarshalJSON() ([]byte, error) { return c20Enc("HBytesPJ", "json", *x) }
func (x *HBytesPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HBytesPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHBytesPJ struct {
	HBytesPJ
	Z int
}
type PHBytesPJ struct {
	*HBytesPJ
	Z int
}
type NHBytesPJ *HBytesPJ

type HBytesVT []byte

func (x HBytesVT) MarshalText() ([]byte, error) { return c20Enc("HBytesVT", "text", x) }
func (x *HBytesVT) UnmarshalText(b []byte) error {
	return c20Dec("HBytesVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBytesVT struct {
	HBytesVT
	Z int
}
type PHBytesVT struct {
	*HBytesVT
	Z int
}
type NHBytesVT *HBytesVT

type HBytesPT []byte

func (x *HBytesPT) MarshalText() ([]byte, error) { return c20Enc("HBytesPT", "text", *x) }
func (x *HBytesPT) UnmarshalText(b []byte) error {
	return c20Dec("HBytesPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBytesPT struct {
	HBytesPT
	Z int
}
type PHBytesPT struct {
	*HBytesPT
	Z int
}
type NHBytesPT *HBytesPT

type HBytesVB []byte

func (x HBytesVB) MarshalJSON() ([]byte, error) { return c20Enc("HBytesVB", "json", x) }
func (x *HBytesVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HBytesVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HBytesVB) MarshalText() ([]byte, error) { return c20Enc("HBytesVB", "text", x) }
func (x *HBytesVB) UnmarshalText(b []byte) error {
	return c20Dec("HBytesVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBytesVB struct {
	HBytesVB
	Z int
}
type PHBytesVB struct {
	*HBytesVB
	Z int
}
type NHBytesVB *HBytesVB

type HBytesTJ []byte

func (x *HBytesTJ) MarshalJSON() ([]byte, error) { return c20Enc("HBytesTJ", "json", *x) }
func (x *HBytesTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HBytesTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HBytesTJ) MarshalText() ([]byte, error) { return c20Enc("HBytesTJ", "text", x) }
func (x *HBytesTJ) UnmarshalText(b []byte) error {
	return c20Dec("HBytesTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHBytesTJ struct {
	HBytesTJ
	Z int
}
type PHBytesTJ struct {
	*HBytesTJ
	Z int
}
type NHBytesTJ *HBytesTJ

type HBytesNN []byte

type HIMapVJ map[int]*int

func (x HIMapVJ) MarshalJSON() ([]byte, error) { return c20Enc("HIMapVJ", "json", x) }
func (x *HIMapVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HIMapVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHIMapVJ struct {
	HIMapVJ
	Z int
}
type PHIMapVJ struct {
	*HIMapVJ
	Z int
}
type NHIMapVJ *HIMapVJ

type HIMapPJ map[int]*int

func (x *HIMapPJ) MarshalJSON() ([]byte, error) { return c20Enc("HIMapPJ", "json", *x) }
func (x *HIMapPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HIMapPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHIMapPJ struct {
	HIMapPJ
	Z int
}
type PHIMapPJ struct {
	*HIMapPJ
	Z int
}
type NHIMapPJ *HIMapPJ

type HIMapVT map[int]*int

func (x HIMapVT) MarshalText() ([]byte, error) { return c20Enc("HIMapVT", "text", x) }
func (x *HIMapVT) UnmarshalText(b []byte) error {
	return c20Dec("HIMapVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIMapVT struct {
	HIMapVT
	Z int
}
type PHIMapVT struct {
	*HIMapVT
	Z int
}
type NHIMapVT *HIMapVT

type HIMapPT map[int]*int

func (x *HIMapPT) MarshalText() ([]byte, error) { return c20Enc("HIMapPT", "text", *x) }
func (x *HIMapPT) UnmarshalText(b []byte) error {
	return c20Dec("HIMapPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIMapPT struct {
	HIMapPT
	Z int
}
type PHIMapPT struct {
	*HIMapPT
	Z int
}
type NHIMapPT *HIMapPT

type HIMapVB map[int]*int

func (x HIMapVB) MarshalJSON() ([]byte, error) { return c20Enc("HIMapVB", "json", x) }
func (x *HIMapVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HIMapVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HIMapVB) MarshalText() ([]byte, error) { return c20Enc("HIMapVB", "text", x) }
func (x *HIMapVB) UnmarshalText(b []byte) error {
	return c20Dec("HIMapVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIMapVB struct {
	HIMapVB
	Z int
}
type PHIMapVB struct {
	*HIMapVB
	Z int
}
type NHIMapVB *HIMapVB

type HIMapTJ map[int]*int

func (x *HIMapTJ) MarshalJSON() ([]byte, error) { return c20Enc("HIMapTJ", "json", *x) }
func (x *HIMapTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HIMapTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HIMapTJ) MarshalText() ([]byte, error) { return c20Enc("HIMapTJ", "text", x) }
func (x *HIMapTJ) UnmarshalText(b []byte) error {
	return c20Dec("HIMapTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHIMapTJ struct {
	HIMapTJ
	Z int
}
type PHIMapTJ struct {
	*HIMapTJ
	Z int
}
type NHIMapTJ *HIMapTJ

type HIMapNN map[int]*int

type HArr1VJ [1]int

func (x HArr1VJ) MarshalJSON() ([]byte, error) { return c20Enc("HArr1VJ", "json", x) }
func (x *HArr1VJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HArr1VJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHArr1VJ struct {
	HArr1VJ
	Z int
}
type PHArr1VJ struct {
	*HArr1VJ
	Z int
}
type NHArr1VJ *HArr1VJ

type HArr1PJ [1]int

func (x *HArr1PJ) MarshalJSON() ([]byte, error) { return c20Enc("HArr1PJ", "json", *x) }
func (x *HArr1PJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HArr1PJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHArr1PJ struct {
	HArr1PJ
	Z int
}
type PHArr1PJ struct {
	*HArr1PJ
	Z int
}
type NHArr1PJ *HArr1PJ

type HArr1VT [1]int

func (x HArr1VT) MarshalText() ([]byte, error) { return c20Enc("HArr1VT", "text", x) }
func (x *HArr1VT) UnmarshalText(b []byte) error {
	return c20Dec("HArr1VT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArr1VT struct {
	HArr1VT
	Z int
}
type PHArr1VT struct {
	*HArr1VT
	Z int
}
type NHArr1VT *HArr1VT

type HArr1PT [1]int

func (x *HArr1PT) MarshalText() ([]byte, error) { return c20Enc("HArr1PT", "text", *x) }
func (x *HArr1PT) UnmarshalText(b []byte) error {
	return c20Dec("HArr1PT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArr1PT struct {
	HArr1PT
	Z int
}
type PHArr1PT struct {
	*HArr1PT
	Z int
}
type NHArr1PT *HArr1PT

type HArr1VB [1]int

func (x HArr1VB) MarshalJSON() ([]byte, error) { return c20Enc("HArr1VB", "json", x) }
func (x *HArr1VB) UnmarshalJSON(b []byte) error {
	return c20Dec("HArr1VB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HArr1VB) MarshalText() ([]byte, error) { return c20Enc("HArr1VB", "text", x) }
func (x *HArr1VB) UnmarshalText(b []byte) error {
	return c20Dec("HArr1VB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArr1VB struct {
	HArr1VB
	Z int
}
type PHArr1VB struct {
	*HArr1VB
	Z int
}
type NHArr1VB *HArr1VB

type HArr1TJ [1]int

func (x *HArr1TJ) MarshalJSON() ([]byte, error) { return c20Enc("HArr1TJ", "json", *x) }
func (x *HArr1TJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HArr1TJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HArr1TJ) MarshalText() ([]byte, error) { return c20Enc("HArr1TJ", "text", x) }
func (x *HArr1TJ) UnmarshalText(b []byte) error {
	return c20Dec("HArr1TJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHArr1TJ struct {
	HArr1TJ
	Z int
}
type PHArr1TJ struct {
	*HArr1TJ
	Z int
}
type NHArr1TJ *HArr1TJ

type HArr1NN [1]int

type HSPSVJ struct{ P struct{ Q *int } }

func (x HSPSVJ) MarshalJSON() ([]byte, error) { return c20Enc("HSPSVJ", "json", x) }
func (x *HSPSVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSPSVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSPSVJ struct {
	HSPSVJ
	Z int
}
type PHSPSVJ struct {
	*HSPSVJ
	Z int
}
type NHSPSVJ *HSPSVJ

type HSPSPJ struct{ P struct{ Q *int } }

func (x *HSPSPJ) MarshalJSON() ([]byte, error) { return c20Enc("HSPSPJ", "json", *x) }
func (x *HSPSPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSPSPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSPSPJ struct {
	HSPSPJ
	Z int
}
type PHSPSPJ struct {
	*HSPSPJ
	Z int
}
type NHSPSPJ *HSPSPJ

type HSPSVT struct{ P struct{ Q *int } }

func (x HSPSVT) MarshalText() ([]byte, error) { return c20Enc("HSPSVT", "text", x) }
func (x *HSPSVT) UnmarshalText(b []byte) error {
	return c20Dec("HSPSVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSPSVT struct {
	HSPSVT
	Z int
}
type PHSPSVT struct {
	*HSPSVT
	Z int
}
type NHSPSVT *HSPSVT

type HSPSPT struct{ P struct{ Q *int } }

func (x *HSPSPT) MarshalText() ([]byte, error) { return c20Enc("HSPSPT", "text", *x) }
func (x *HSPSPT) UnmarshalText(b []byte) error {
	return c20Dec("HSPSPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSPSPT struct {
	HSPSPT
	Z int
}
type PHSPSPT struct {
	*HSPSPT
	Z int
}
type NHSPSPT *HSPSPT

type HSPSVB struct{ P struct{ Q *int } }

func (x HSPSVB) MarshalJSON() ([]byte, error) { return c20Enc("HSPSVB", "json", x) }
func (x *HSPSVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HSPSVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSPSVB) MarshalText() ([]byte, error) { return c20Enc("HSPSVB", "text", x) }
func (x *HSPSVB) UnmarshalText(b []byte) error {
	return c20Dec("HSPSVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSPSVB struct {
	HSPSVB
	Z int
}
type PHSPSVB struct {
	*HSPSVB
	Z int
}
type NHSPSVB *HSPSVB

type HSPSTJ struct{ P struct{ Q *int } }

func (x *HSPSTJ) MarshalJSON() ([]byte, error) { return c20Enc("HSPSTJ", "json", *x) }
func (x *HSPSTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSPSTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSPSTJ) MarshalText() ([]byte, error) { return c20Enc("HSPSTJ", "text", x) }
func (x *HSPSTJ) UnmarshalText(b []byte) error {
	return c20Dec("HSPSTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSPSTJ struct {
	HSPSTJ
	Z int
}
type PHSPSTJ struct {
	*HSPSTJ
	Z int
}
type NHSPSTJ *HSPSTJ

type HSPSNN struct{ P struct{ Q *int } }

type HASVJ [1]struct{ P *int }

func (x HASVJ) MarshalJSON() ([]byte, error) { return c20Enc("HASVJ", "json", x) }
func (x *HASVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HASVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHASVJ struct {
	HASVJ
	Z int
}
type PHASVJ struct {
	*HASVJ
	Z int
}
type NHASVJ *HASVJ

type HASPJ [1]struct{ P *int }

func (x *HASPJ) MarshalJSON() ([]byte, error) { return c20Enc("HASPJ", "json", *x) }
func (x *HASPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HASPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHASPJ struct {
	HASPJ
	Z int
}
type PHASPJ struct {
	*HASPJ
	Z int
}
type NHASPJ *HASPJ

type HASVT [1]struct{ P *int }

func (x HASVT) MarshalText() ([]byte, error) { return c20Enc("HASVT", "text", x) }
func (x *HASVT) UnmarshalText(b []byte) error {
	return c20Dec("HASVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHASVT struct {
	HASVT
	Z int
}
type PHASVT struct {
	*HASVT
	Z int
}
type NHASVT *HASVT

type HASPT [1]struct{ P *int }

func (x *HASPT) MarshalText() ([]byte, error) { return c20Enc("HASPT", "text", *x) }
func (x *HASPT) UnmarshalText(b []byte) error {
	return c20Dec("HASPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHASPT struct {
	HASPT
	Z int
}
type PHASPT struct {
	*HASPT
	Z int
}
type NHASPT *HASPT

type HASVB [1]struct{ P *int }

func (x HASVB) MarshalJSON() ([]byte, error) { return c20Enc("HASVB", "json", x) }
func (x *HASVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HASVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HASVB) MarshalText() ([]byte, error) { return c20Enc("HASVB", "text", x) }
func (x *HASVB) UnmarshalText(b []byte) error {
	return c20Dec("HASVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHASVB struct {
	HASVB
	Z int
}
type PHASVB struct {
	*HASVB
	Z int
}
type NHASVB *HASVB

type HASTJ [1]struct{ P *int }

func (x *HASTJ) MarshalJSON() ([]byte, error) { return c20Enc("HASTJ", "json", *x) }
func (x *HASTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HASTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HASTJ) MarshalText() ([]byte, error) { return c20Enc("HASTJ", "text", x) }
func (x *HASTJ) UnmarshalText(b []byte) error {
	return c20Dec("HASTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHASTJ struct {
	HASTJ
	Z int
}
type PHASTJ struct {
	*HASTJ
	Z int
}
type NHASTJ *HASTJ

type HASNN [1]struct{ P *int }

type HSMVJ struct{ M map[string]int }

func (x HSMVJ) MarshalJSON() ([]byte, error) { return c20Enc("HSMVJ", "json", x) }
func (x *HSMVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSMVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSMVJ struct {
	HSMVJ
	Z int
}
type PHSMVJ struct {
	*HSMVJ
	Z int
}
type NHSMVJ *HSMVJ

type HSMPJ struct{ M map[string]int }

func (x *HSMPJ) MarshalJSON() ([]byte, error) { return c20Enc("HSMPJ", "json", *x) }
func (x *HSMPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSMPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSMPJ struct {
	HSMPJ
	Z int
}
type PHSMPJ struct {
	*HSMPJ
	Z int
}
type NHSMPJ *HSMPJ

type HSMVT struct{ M map[string]int }

func (x HSMVT) MarshalText() ([]byte, error) { return c20Enc("HSMVT", "text", x) }
func (x *HSMVT) UnmarshalText(b []byte) error {
	return c20Dec("HSMVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSMVT struct {
	HSMVT
	Z int
}
type PHSMVT struct {
	*HSMVT
	Z int
}
type NHSMVT *HSMVT

type HSMPT struct{ M map[string]int }

func (x *HSMPT) MarshalText() ([]byte, error) { return c20Enc("HSMPT", "text", *x) }
func (x *HSMPT) UnmarshalText(b []byte) error {
	return c20Dec("HSMPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSMPT struct {
	HSMPT
	Z int
}
type PHSMPT struct {
	*HSMPT
	Z int
}
type NHSMPT *HSMPT

type HSMVB struct{ M map[string]int }

func (x HSMVB) MarshalJSON() ([]byte, error) { return c20Enc("HSMVB", "json", x) }
func (x *HSMVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HSMVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSMVB) MarshalText() ([]byte, error) { return c20Enc("HSMVB", "text", x) }
func (x *HSMVB) UnmarshalText(b []byte) error {
	return c20Dec("HSMVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSMVB struct {
	HSMVB
	Z int
}
type PHSMVB struct {
	*HSMVB
	Z int
}
type NHSMVB *HSMVB

type HSMTJ struct{ M map[string]int }

func (x *HSMTJ) MarshalJSON() ([]byte, error) { return c20Enc("HSMTJ", "json", *x) }
func (x *HSMTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSMTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSMTJ) MarshalText() ([]byte, error) { return c20Enc("HSMTJ", "text", x) }
func (x *HSMTJ) UnmarshalText(b []byte) error {
	return c20Dec("HSMTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSMTJ struct {
	HSMTJ
	Z int
}
type PHSMTJ struct {
	*HSMTJ
	Z int
}
type NHSMTJ *HSMTJ

type HSMNN struct{ M map[string]int }

type HPSliceVJ []*int

func (x HPSliceVJ) MarshalJSON() ([]byte, error) { return c20Enc("HPSliceVJ", "json", x) }
func (x *HPSliceVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSliceVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHPSliceVJ struct {
	HPSliceVJ
	Z int
}
type PHPSliceVJ struct {
	*HPSliceVJ
	Z int
}
type NHPSliceVJ *HPSliceVJ

type HPSlicePJ []*int

func (x *HPSlicePJ) MarshalJSON() ([]byte, error) { return c20Enc("HPSlicePJ", "json", *x) }
func (x *HPSlicePJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSlicePJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHPSlicePJ struct {
	HPSlicePJ
	Z int
}
type PHPSlicePJ struct {
	*HPSlicePJ
	Z int
}
type NHPSlicePJ *HPSlicePJ

type HPSliceVT []*int

func (x HPSliceVT) MarshalText() ([]byte, error) { return c20Enc("HPSliceVT", "text", x) }
func (x *HPSliceVT) UnmarshalText(b []byte) error {
	return c20Dec("HPSliceVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSliceVT struct {
	HPSliceVT
	Z int
}
type PHPSliceVT struct {
	*HPSliceVT
	Z int
}
type NHPSliceVT *HPSliceVT

type HPSlicePT []*int

func (x *HPSlicePT) MarshalText() ([]byte, error) { return c20Enc("HPSlicePT", "text", *x) }
func (x *HPSlicePT) UnmarshalText(b []byte) error {
	return c20Dec("HPSlicePT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSlicePT struct {
	HPSlicePT
	Z int
}
type PHPSlicePT struct {
	*HPSlicePT
	Z int
}
type NHPSlicePT *HPSlicePT

type HPSliceVB []*int

func (x HPSliceVB) MarshalJSON() ([]byte, error) { return c20Enc("HPSliceVB", "json", x) }
func (x *HPSliceVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSliceVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HPSliceVB) MarshalText() ([]byte, error) { return c20Enc("HPSliceVB", "text", x) }
func (x *HPSliceVB) UnmarshalText(b []byte) error {
	return c20Dec("HPSliceVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSliceVB struct {
	HPSliceVB
	Z int
}
type PHPSliceVB struct {
	*HPSliceVB
	Z int
}
type NHPSliceVB *HPSliceVB

type HPSliceTJ []*int

func (x *HPSliceTJ) MarshalJSON() ([]byte, error) { return c20Enc("HPSliceTJ", "json", *x) }
func (x *HPSliceTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HPSliceTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HPSliceTJ) MarshalText() ([]byte, error) { return c20Enc("HPSliceTJ", "text", x) }
func (x *HPSliceTJ) UnmarshalText(b []byte) error {
	return c20Dec("HPSliceTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHPSliceTJ struct {
	HPSliceTJ
	Z int
}
type PHPSliceTJ struct {
	*HPSliceTJ
	Z int
}
type NHPSliceTJ *HPSliceTJ

type HPSliceNN []*int

type HSSVJ []struct{ A, B string }

func (x HSSVJ) MarshalJSON() ([]byte, error) { return c20Enc("HSSVJ", "json", x) }
func (x *HSSVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSSVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSSVJ struct {
	HSSVJ
	Z int
}
type PHSSVJ struct {
	*HSSVJ
	Z int
}
type NHSSVJ *HSSVJ

type HSSPJ []struct{ A, B string }

func (x *HSSPJ) MarshalJSON() ([]byte, error) { return c20Enc("HSSPJ", "json", *x) }
func (x *HSSPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSSPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHSSPJ struct {
	HSSPJ
	Z int
}
type PHSSPJ struct {
	*HSSPJ
	Z int
}
type NHSSPJ *HSSPJ

type HSSVT []struct{ A, B string }

func (x HSSVT) MarshalText() ([]byte, error) { return c20Enc("HSSVT", "text", x) }
func (x *HSSVT) UnmarshalText(b []byte) error {
	return c20Dec("HSSVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSSVT struct {
	HSSVT
	Z int
}
type PHSSVT struct {
	*HSSVT
	Z int
}
type NHSSVT *HSSVT

type HSSPT []struct{ A, B string }

func (x *HSSPT) MarshalText() ([]byte, error) { return c20Enc("HSSPT", "text", *x) }
func (x *HSSPT) UnmarshalText(b []byte) error {
	return c20Dec("HSSPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSSPT struct {
	HSSPT
	Z int
}
type PHSSPT struct {
	*HSSPT
	Z int
}
type NHSSPT *HSSPT

type HSSVB []struct{ A, B string }

func (x HSSVB) MarshalJSON() ([]byte, error) { return c20Enc("HSSVB", "json", x) }
func (x *HSSVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HSSVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSSVB) MarshalText() ([]byte, error) { return c20Enc("HSSVB", "text", x) }
func (x *HSSVB) UnmarshalText(b []byte) error {
	return c20Dec("HSSVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSSVB struct {
	HSSVB
	Z int
}
type PHSSVB struct {
	*HSSVB
	Z int
}
type NHSSVB *HSSVB

type HSSTJ []struct{ A, B string }

func (x *HSSTJ) MarshalJSON() ([]byte, error) { return c20Enc("HSSTJ", "json", *x) }
func (x *HSSTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HSSTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HSSTJ) MarshalText() ([]byte, error) { return c20Enc("HSSTJ", "text", x) }
func (x *HSSTJ) UnmarshalText(b []byte) error {
	return c20Dec("HSSTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHSSTJ struct {
	HSSTJ
	Z int
}
type PHSSTJ struct {
	*HSSTJ
	Z int
}
type NHSSTJ *HSSTJ

type HSSNN []struct{ A, B string }

type HWideVJ struct {
	A []int
	B *string
	C [3]string
}

func (x HWideVJ) MarshalJSON() ([]byte, error) { return c20Enc("HWideVJ", "json", x) }
func (x *HWideVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HWideVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHWideVJ struct {
	HWideVJ
	Z int
}
type PHWideVJ struct {
	*HWideVJ
	Z int
}
type NHWideVJ *HWideVJ

type HWidePJ struct {
	A []int
	B *string
	C [3]string
}

func (x *HWidePJ) MarshalJSON() ([]byte, error) { return c20Enc("HWidePJ", "json", *x) }
func (x *HWidePJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HWidePJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHWidePJ struct {
	HWidePJ
	Z int
}
type PHWidePJ struct {
	*HWidePJ
	Z int
}
type NHWidePJ *HWidePJ

type HWideVT struct {
	A []int
	B *string
	C [3]string
}

func (x HWideVT) MarshalText() ([]byte, error) { return c20Enc("HWideVT", "text", x) }
func (x *HWideVT) UnmarshalText(b []byte) error {
	return c20Dec("HWideVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHWideVT struct {
	HWideVT
	Z int
}
type PHWideVT struct {
	*HWideVT
	Z int
}
type NHWideVT *HWideVT

type HWidePT struct {
	A []int
	B *string
	C [3]string
}

func (x *HWidePT) MarshalText() ([]byte, error) { return c20Enc("HWidePT", "text", *x) }
func (x *HWidePT) UnmarshalText(b []byte) error {
	return c20Dec("HWidePT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHWidePT struct {
	HWidePT
	Z int
}
type PHWidePT struct {
	*HWidePT
	Z int
}
type NHWidePT *HWidePT

type HWideVB struct {
	A []int
	B *string
	C [3]string
}

func (x HWideVB) MarshalJSON() ([]byte, error) { return c20Enc("HWideVB", "json", x) }
func (x *HWideVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HWideVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HWideVB) MarshalText() ([]byte, error) { return c20Enc("HWideVB", "text", x) }
func (x *HWideVB) UnmarshalText(b []byte) error {
	return c20Dec("HWideVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHWideVB struct {
	HWideVB
	Z int
}
type PHWideVB struct {
	*HWideVB
	Z int
}
type NHWideVB *HWideVB

type HWideTJ struct {
	A []int
	B *string
	C [3]string
}

func (x *HWideTJ) MarshalJSON() ([]byte, error) { return c20Enc("HWideTJ", "json", *x) }
func (x *HWideTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HWideTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HWideTJ) MarshalText() ([]byte, error) { return c20Enc("HWideTJ", "text", x) }
func (x *HWideTJ) UnmarshalText(b []byte) error {
	return c20Dec("HWideTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHWideTJ struct {
	HWideTJ
	Z int
}
type PHWideTJ struct {
	*HWideTJ
	Z int
}
type NHWideTJ *HWideTJ

type HWideNN struct {
	A []int
	B *string
	C [3]string
}

type HZeroVJ struct {
	_ struct{}
	P *int
}

func (x HZeroVJ) MarshalJSON() ([]byte, error) { return c20Enc("HZeroVJ", "json", x) }
func (x *HZeroVJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZeroVJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHZeroVJ struct {
	HZeroVJ
	Z int
}
type PHZeroVJ struct {
	*HZeroVJ
	Z int
}
type NHZeroVJ *HZeroVJ

type HZeroPJ struct {
	_ struct{}
	P *int
}

func (x *HZeroPJ) MarshalJSON() ([]byte, error) { return c20Enc("HZeroPJ", "json", *x) }
func (x *HZeroPJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZeroPJ", "json", reflect.ValueOf(x).Elem(), b)
}

type EHZeroPJ struct {
	HZeroPJ
	Z int
}
type PHZeroPJ struct {
	*HZeroPJ
	Z int
}
type NHZeroPJ *HZeroPJ

type HZeroVT struct {
	_ struct{}
	P *int
}

func (x HZeroVT) MarshalText() ([]byte, error) { return c20Enc("HZeroVT", "text", x) }
func (x *HZeroVT) UnmarshalText(b []byte) error {
	return c20Dec("HZeroVT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZeroVT struct {
	HZeroVT
	Z int
}
type PHZeroVT struct {
	*HZeroVT
	Z int
}
type NHZeroVT *HZeroVT

type HZeroPT struct {
	_ struct{}
	P *int
}

func (x *HZeroPT) MarshalText() ([]byte, error) { return c20Enc("HZeroPT", "text", *x) }
func (x *HZeroPT) UnmarshalText(b []byte) error {
	return c20Dec("HZeroPT", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZeroPT struct {
	HZeroPT
	Z int
}
type PHZeroPT struct {
	*HZeroPT
	Z int
}
type NHZeroPT *HZeroPT

type HZeroVB struct {
	_ struct{}
	P *int
}

func (x HZeroVB) MarshalJSON() ([]byte, error) { return c20Enc("HZeroVB", "json", x) }
func (x *HZeroVB) UnmarshalJSON(b []byte) error {
	return c20Dec("HZeroVB", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HZeroVB) MarshalText() ([]byte, error) { return c20Enc("HZeroVB", "text", x) }
func (x *HZeroVB) UnmarshalText(b []byte) error {
	return c20Dec("HZeroVB", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZeroVB struct {
	HZeroVB
	Z int
}
type PHZeroVB struct {
	*HZeroVB
	Z int
}
type NHZeroVB *HZeroVB

type HZeroTJ struct {
	_ struct{}
	P *int
}

func (x *HZeroTJ) MarshalJSON() ([]byte, error) { return c20Enc("HZeroTJ", "json", *x) }
func (x *HZeroTJ) UnmarshalJSON(b []byte) error {
	return c20Dec("HZeroTJ", "json", reflect.ValueOf(x).Elem(), b)
}

func (x HZeroTJ) MarshalText() ([]byte, error) { return c20Enc("HZeroTJ", "text", x) }
func (x *HZeroTJ) UnmarshalText(b []byte) error {
	return c20Dec("HZeroTJ", "text", reflect.ValueOf(x).Elem(), b)
}

type EHZeroTJ struct {
	HZeroTJ
	Z int
}
type PHZeroTJ struct {
	*HZeroTJ
	Z int
}
type NHZeroTJ *HZeroTJ

type HZeroNN struct {
	_ struct{}
	P *int
}
