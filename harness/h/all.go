package h

// All lists the harnesses for native replay (generated by gen_all.sh).
var All = map[string]func(){
	"C01_BFV":          C01_BFV,
	"C01_BFVShapes":    C01_BFVShapes,
	"C01_CKKS":         C01_CKKS,
	"C01_Large":        C01_Large,
	"C01_Large2":       C01_Large2,
	"C01_Large3":       C01_Large3,
	"C01_RLWE":         C01_RLWE,
	"C01_Shapes":       C01_Shapes,
	"C02_BFV":          C02_BFV,
	"C02_CKKS":         C02_CKKS,
	"C02_Crowd":        C02_Crowd,
	"C02_Decrypt":      C02_Decrypt,
	"C02_Partial":      C02_Partial,
	"C02_Shapes":       C02_Shapes,
	"C03_Degree":       C03_Degree,
	"C03_Keys":         C03_Keys,
	"C03_Large":        C03_Large,
	"C03_Pairs":        C03_Pairs,
	"C03_Schemes":      C03_Schemes,
	"C03_Sizes":        C03_Sizes,
	"C04_BFV":          C04_BFV,
	"C04_Degree":       C04_Degree,
	"C04_Degree2":      C04_Degree2,
	"C04_Large":        C04_Large,
	"C04_Large2":       C04_Large2,
	"C04_RLK":          C04_RLK,
	"C04_Sizes":        C04_Sizes,
	"C04_Sizes2":       C04_Sizes2,
	"C04_Switch":       C04_Switch,
	"C05_Conj":         C05_Conj,
	"C05_Default":      C05_Default,
	"C05_Degree":       C05_Degree,
	"C05_Large":        C05_Large,
	"C05_Large2":       C05_Large2,
	"C05_Rotation":     C05_Rotation,
	"C05_Sizes":        C05_Sizes,
	"C06_BFV":          C06_BFV,
	"C06_Decompose":    C06_Decompose,
	"C06_Degree":       C06_Degree,
	"C06_Degree2":      C06_Degree2,
	"C06_Large":        C06_Large,
	"C06_Large2":       C06_Large2,
	"C06_Long":         C06_Long,
	"C06_Sizes":        C06_Sizes,
	"C06_Sizes2":       C06_Sizes2,
	"C07_BFV":          C07_BFV,
	"C07_BFVGadget":    C07_BFVGadget,
	"C07_BFVLong":      C07_BFVLong,
	"C07_Degree":       C07_Degree,
	"C07_Degree2":      C07_Degree2,
	"C07_External":     C07_External,
	"C07_Gadget":       C07_Gadget,
	"C07_Large":        C07_Large,
	"C07_Large2":       C07_Large2,
	"C07_Long":         C07_Long,
	"C07_Sizes":        C07_Sizes,
	"C07_Sizes2":       C07_Sizes2,
	"C08_BFV":          C08_BFV,
	"C08_Degree":       C08_Degree,
	"C08_Degree2":      C08_Degree2,
	"C08_Degree3":      C08_Degree3,
	"C08_Large":        C08_Large,
	"C08_Large2":       C08_Large2,
	"C08_Large3":       C08_Large3,
	"C08_ModDown":      C08_ModDown,
	"C08_ModUp":        C08_ModUp,
	"C08_Sizes":        C08_Sizes,
	"C08_Sizes2":       C08_Sizes2,
	"C08_Sizes3":       C08_Sizes3,
	"C09_AddSub":       C09_AddSub,
	"C09_Crowd":        C09_Crowd,
	"C09_Degree":       C09_Degree,
	"C09_Large":        C09_Large,
	"C09_Many":         C09_Many,
	"C09_Nobody":       C09_Nobody,
	"C09_Self":         C09_Self,
	"C10_Crowd":        C10_Crowd,
	"C10_Degree":       C10_Degree,
	"C10_Large":        C10_Large,
	"C10_Many":         C10_Many,
	"C10_Mul":          C10_Mul,
	"C10_MulAndRelin":  C10_MulAndRelin,
	"C10_Nobody":       C10_Nobody,
	"C10_Sizes":        C10_Sizes,
	"C10_Square":       C10_Square,
	"C10_Switcher":     C10_Switcher,
	"C11_Crowd":        C11_Crowd,
	"C11_Degree":       C11_Degree,
	"C11_Degree2":      C11_Degree2,
	"C11_Large":        C11_Large,
	"C11_Large2":       C11_Large2,
	"C11_Many":         C11_Many,
	"C11_Mul":          C11_Mul,
	"C11_Nobody":       C11_Nobody,
	"C11_Rotate":       C11_Rotate,
	"C11_Sizes":        C11_Sizes,
	"C12_Crowd":        C12_Crowd,
	"C12_Degree":       C12_Degree,
	"C12_Degree2":      C12_Degree2,
	"C12_Direct":       C12_Direct,
	"C12_Large":        C12_Large,
	"C12_Many":         C12_Many,
	"C12_Nobody":       C12_Nobody,
	"C12_Rotate":       C12_Rotate,
	"C12_Sizes":        C12_Sizes,
	"C12_Switcher":     C12_Switcher,
	"C13_Conjugate":    C13_Conjugate,
	"C13_Crowd":        C13_Crowd,
	"C13_Degree":       C13_Degree,
	"C13_Large":        C13_Large,
	"C13_Many":         C13_Many,
	"C13_Nobody":       C13_Nobody,
	"C13_Sizes":        C13_Sizes,
	"C13_Switcher":     C13_Switcher,
	"C14_Const":        C14_Const,
	"C14_Degree":       C14_Degree,
	"C14_Degree2":      C14_Degree2,
	"C14_Large":        C14_Large,
	"C14_Large2":       C14_Large2,
	"C14_Many":         C14_Many,
	"C14_Nobody":       C14_Nobody,
	"C14_Plain":        C14_Plain,
	"C14_Sizes":        C14_Sizes,
	"C14_Sizes2":       C14_Sizes2,
	"C15_Degree":       C15_Degree,
	"C15_Drop":         C15_Drop,
	"C15_Large":        C15_Large,
	"C15_Many":         C15_Many,
	"C15_Refused":      C15_Refused,
	"C15_Rescale":      C15_Rescale,
	"C15_Sizes":        C15_Sizes,
	"C16_AddSub":       C16_AddSub,
	"C16_Chain":        C16_Chain,
	"C16_Crowd":        C16_Crowd,
	"C16_Degree":       C16_Degree,
	"C16_Large":        C16_Large,
	"C16_Nobody":       C16_Nobody,
	"C16_Sizes":        C16_Sizes,
	"C17_Crowd":        C17_Crowd,
	"C17_Degree":       C17_Degree,
	"C17_Forms":        C17_Forms,
	"C17_Large":        C17_Large,
	"C17_Many":         C17_Many,
	"C17_Mul":          C17_Mul,
	"C17_Nobody":       C17_Nobody,
	"C17_Sizes":        C17_Sizes,
	"C17_Square":       C17_Square,
	"C18_Conjugate":    C18_Conjugate,
	"C18_Crowd":        C18_Crowd,
	"C18_Degree":       C18_Degree,
	"C18_Degree2":      C18_Degree2,
	"C18_Direct":       C18_Direct,
	"C18_Large":        C18_Large,
	"C18_Many":         C18_Many,
	"C18_Nobody":       C18_Nobody,
	"C18_Rotate":       C18_Rotate,
	"C18_Sizes":        C18_Sizes,
	"C18_Twice":        C18_Twice,
	"C19_BFV":          C19_BFV,
	"C19_BFVLater":     C19_BFVLater,
	"C19_CKKS":         C19_CKKS,
	"C19_CKKSLater":    C19_CKKSLater,
	"C19_Crypt":        C19_Crypt,
	"C19_Keys":         C19_Keys,
	"C20_BFV":          C20_BFV,
	"C20_BFVFailed":    C20_BFVFailed,
	"C20_BFVInPlace":   C20_BFVInPlace,
	"C20_BFVKeys":      C20_BFVKeys,
	"C20_BFVLong":      C20_BFVLong,
	"C20_BFVSwitchers": C20_BFVSwitchers,
	"C20_CKKS":         C20_CKKS,
	"C20_CKKSKeys":     C20_CKKSKeys,
	"C20_Count":        C20_Count,
	"C20_Crypt":        C20_Crypt,
	"C20_Failed":       C20_Failed,
	"C20_FailedCrypt":  C20_FailedCrypt,
	"C20_InPlace":      C20_InPlace,
	"C20_Keys":         C20_Keys,
	"C20_Long":         C20_Long,
	"C20_OtherDegree":  C20_OtherDegree,
	"C20_OtherParams":  C20_OtherParams,
	"C20_Reuse":        C20_Reuse,
	"C20_Schemes":      C20_Schemes,
	"C20_Switchers":    C20_Switchers,
	"C21_IDSet":        C21_IDSet,
	"C21_Names":        C21_Names,
	"C21_Pad":          C21_Pad,
	"C21_Registry":     C21_Registry,
	"C22_Add":          C22_Add,
	"C22_Default":      C22_Default,
	"C22_Degree":       C22_Degree,
	"C22_Schemes":      C22_Schemes,
	"C23_Again":        C23_Again,
	"C23_Convolution":  C23_Convolution,
	"C23_FC1":          C23_FC1,
	"C23_FC1_Many":     C23_FC1_Many,
	"C23_FC2":          C23_FC2,
	"C24_BFVKeys":      C24_BFVKeys,
	"C24_Degree":       C24_Degree,
	"C24_Encrypt":      C24_Encrypt,
	"C24_Keys":         C24_Keys,
	"C24_Large":        C24_Large,
	"C24_Long":         C24_Long,
	"C24_Schemes":      C24_Schemes,
	"C24_Secrets":      C24_Secrets,
	"C24_Sigma":        C24_Sigma,
	"C25_BFV":          C25_BFV,
	"C25_CKKS":         C25_CKKS,
	"C25_RLWE":         C25_RLWE,
}
