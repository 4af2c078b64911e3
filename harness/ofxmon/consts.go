package main

import "github.com/aclindsa/ofxgo"

// The exported constants and constructors of every enumeration, in the order
// of the frozen table.
func listEnums() {
	enum("ofxVersion", ofxgo.NewOfxVersion, ofxgo.OfxVersion102, ofxgo.OfxVersion103, ofxgo.OfxVersion151, ofxgo.OfxVersion160, ofxgo.OfxVersion200, ofxgo.OfxVersion201, ofxgo.OfxVersion202, ofxgo.OfxVersion203, ofxgo.OfxVersion210, ofxgo.OfxVersion211, ofxgo.OfxVersion220)
	enum("acctType", ofxgo.NewAcctType, ofxgo.AcctTypeChecking, ofxgo.AcctTypeSavings, ofxgo.AcctTypeMoneyMrkt, ofxgo.AcctTypeCreditLine, ofxgo.AcctTypeCD)
	enum("trnType", ofxgo.NewTrnType, ofxgo.TrnTypeCredit, ofxgo.TrnTypeDebit, ofxgo.TrnTypeInt, ofxgo.TrnTypeDiv, ofxgo.TrnTypeFee, ofxgo.TrnTypeSrvChg, ofxgo.TrnTypeDep, ofxgo.TrnTypeATM, ofxgo.TrnTypePOS, ofxgo.TrnTypeXfer, ofxgo.TrnTypeCheck, ofxgo.TrnTypePayment, ofxgo.TrnTypeCash, ofxgo.TrnTypeDirectDep, ofxgo.TrnTypeDirectDebit, ofxgo.TrnTypeRepeatPmt, ofxgo.TrnTypeHold, ofxgo.TrnTypeOther)
	enum("imageType", ofxgo.NewImageType, ofxgo.ImageTypeStatement, ofxgo.ImageTypeTransaction, ofxgo.ImageTypeTax)
	enum("imageRefType", ofxgo.NewImageRefType, ofxgo.ImageRefTypeOpaque, ofxgo.ImageRefTypeURL, ofxgo.ImageRefTypeFormURL)
	enum("checkSup", ofxgo.NewCheckSup, ofxgo.CheckSupFrontOnly, ofxgo.CheckSupBackOnly, ofxgo.CheckSupFrontAndBack)
	enum("correctAction", ofxgo.NewCorrectAction, ofxgo.CorrectActionDelete, ofxgo.CorrectActionReplace)
	enum("balType", ofxgo.NewBalType, ofxgo.BalTypeDollar, ofxgo.BalTypePercent, ofxgo.BalTypeNumber)
	enum("inv401kSource", ofxgo.NewInv401kSource, ofxgo.Inv401kSourcePreTax, ofxgo.Inv401kSourceAfterTax, ofxgo.Inv401kSourceMatch, ofxgo.Inv401kSourceProfitSharing, ofxgo.Inv401kSourceRollover, ofxgo.Inv401kSourceOtherVest, ofxgo.Inv401kSourceOtherNonVest)
	enum("subAcctType", ofxgo.NewSubAcctType, ofxgo.SubAcctTypeCash, ofxgo.SubAcctTypeMargin, ofxgo.SubAcctTypeShort, ofxgo.SubAcctTypeOther)
	enum("buyType", ofxgo.NewBuyType, ofxgo.BuyTypeBuy, ofxgo.BuyTypeBuyToCover)
	enum("optAction", ofxgo.NewOptAction, ofxgo.OptActionExercise, ofxgo.OptActionAssign, ofxgo.OptActionExpire)
	enum("tferAction", ofxgo.NewTferAction, ofxgo.TferActionIn, ofxgo.TferActionOut)
	enum("posType", ofxgo.NewPosType, ofxgo.PosTypeLong, ofxgo.PosTypeShort)
	enum("secured", ofxgo.NewSecured, ofxgo.SecuredNaked, ofxgo.SecuredCovered)
	enum("duration", ofxgo.NewDuration, ofxgo.DurationDay, ofxgo.DurationGoodTilCancel, ofxgo.DurationImmediate)
	enum("restriction", ofxgo.NewRestriction, ofxgo.RestrictionAllOrNone, ofxgo.RestrictionMinUnits, ofxgo.RestrictionNone)
	enum("unitType", ofxgo.NewUnitType, ofxgo.UnitTypeShares, ofxgo.UnitTypeCurrency)
	enum("optBuyType", ofxgo.NewOptBuyType, ofxgo.OptBuyTypeBuyToOpen, ofxgo.OptBuyTypeBuyToClose)
	enum("sellType", ofxgo.NewSellType, ofxgo.SellTypeSell, ofxgo.SellTypeSellShort)
	enum("loanPmtFreq", ofxgo.NewLoanPmtFreq, ofxgo.LoanPmtFreqWeekly, ofxgo.LoanPmtFreqBiweekly, ofxgo.LoanPmtFreqTwiceMonthly, ofxgo.LoanPmtFreqMonthly, ofxgo.LoanPmtFreqFourWeeks, ofxgo.LoanPmtFreqBiMonthly, ofxgo.LoanPmtFreqQuarterly, ofxgo.LoanPmtFreqSemiannually, ofxgo.LoanPmtFreqAnnually, ofxgo.LoanPmtFreqOther)
	enum("incomeType", ofxgo.NewIncomeType, ofxgo.IncomeTypeCGLong, ofxgo.IncomeTypeCGShort, ofxgo.IncomeTypeDiv, ofxgo.IncomeTypeInterest, ofxgo.IncomeTypeMisc)
	enum("sellReason", ofxgo.NewSellReason, ofxgo.SellReasonCall, ofxgo.SellReasonSell, ofxgo.SellReasonMaturity)
	enum("optSellType", ofxgo.NewOptSellType, ofxgo.OptSellTypeSellToClose, ofxgo.OptSellTypeSellToOpen)
	enum("relType", ofxgo.NewRelType, ofxgo.RelTypeSpread, ofxgo.RelTypeStraddle, ofxgo.RelTypeNone, ofxgo.RelTypeOther)
	enum("charType", ofxgo.NewCharType, ofxgo.CharTypeAlphaOnly, ofxgo.CharTypeNumericOnly, ofxgo.CharTypeAlphaOrNumeric, ofxgo.CharTypeAlphaAndNumeric)
	enum("syncMode", ofxgo.NewSyncMode, ofxgo.SyncModeFull, ofxgo.SyncModeLite)
	enum("ofxSec", ofxgo.NewOfxSec, ofxgo.OfxSecNone, ofxgo.OfxSecType1)
	enum("debtType", ofxgo.NewDebtType, ofxgo.DebtTypeCoupon, ofxgo.DebtTypeZero)
	enum("debtClass", ofxgo.NewDebtClass, ofxgo.DebtClassTreasury, ofxgo.DebtClassMunicipal, ofxgo.DebtClassCorporate, ofxgo.DebtClassOther)
	enum("couponFreq", ofxgo.NewCouponFreq, ofxgo.CouponFreqMonthly, ofxgo.CouponFreqQuarterly, ofxgo.CouponFreqSemiannual, ofxgo.CouponFreqAnnual, ofxgo.CouponFreqOther)
	enum("callType", ofxgo.NewCallType, ofxgo.CallTypeCall, ofxgo.CallTypePut, ofxgo.CallTypePrefund, ofxgo.CallTypeMaturity)
	enum("assetClass", ofxgo.NewAssetClass, ofxgo.AssetClassDomesticBond, ofxgo.AssetClassIntlBond, ofxgo.AssetClassLargeStock, ofxgo.AssetClassSmallStock, ofxgo.AssetClassIntlStock, ofxgo.AssetClassMoneyMrkt, ofxgo.AssetClassOther)
	enum("mfType", ofxgo.NewMfType, ofxgo.MfTypeOpenEnd, ofxgo.MfTypeCloseEnd, ofxgo.MfTypeOther)
	enum("optType", ofxgo.NewOptType, ofxgo.OptTypePut, ofxgo.OptTypeCall)
	enum("stockType", ofxgo.NewStockType, ofxgo.StockTypeCommon, ofxgo.StockTypePreferred, ofxgo.StockTypeConvertible, ofxgo.StockTypeOther)
	enum("holderType", ofxgo.NewHolderType, ofxgo.HolderTypeIndividual, ofxgo.HolderTypeJoint, ofxgo.HolderTypeCustodial, ofxgo.HolderTypeTrust, ofxgo.HolderTypeOther)
	enum("acctClassification", ofxgo.NewAcctClassification, ofxgo.AcctClassificationPersonal, ofxgo.AcctClassificationBusiness, ofxgo.AcctClassificationCorporate, ofxgo.AcctClassificationOther)
	enum("svcStatus", ofxgo.NewSvcStatus, ofxgo.SvcStatusAvail, ofxgo.SvcStatusPend, ofxgo.SvcStatusActive)
	enum("usProductType", ofxgo.NewUsProductType, ofxgo.UsProductType401K, ofxgo.UsProductType403B, ofxgo.UsProductTypeIRA, ofxgo.UsProductTypeKEOGH, ofxgo.UsProductTypeOther, ofxgo.UsProductTypeSARSEP, ofxgo.UsProductTypeSimple, ofxgo.UsProductTypeNormal, ofxgo.UsProductTypeTDA, ofxgo.UsProductTypeTrust, ofxgo.UsProductTypeUGMA)
}
