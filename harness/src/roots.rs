// Generated from spec/schema.json: message modules that are not reachable through MxMessage.

roots! {
    "camt_105_001_02_mc", document, camt_105_001_02_mc, ChargesPaymentNotificationV02;
    "camt_106_001_02_mc", document, camt_106_001_02_mc, ChargesPaymentRequestV02;
    "pacs_008_001_08_stp", document, pacs_008_001_08_stp, FIToFICustomerCreditTransferV08;
    "pacs_009_001_08_adv", document, pacs_009_001_08_adv, FinancialInstitutionCreditTransferV08;
    "pacs_009_001_08_cov", document, pacs_009_001_08_cov, FinancialInstitutionCreditTransferV08;
    "pacs_010_001_03_mc", document, pacs_010_001_03_mc, FinancialInstitutionDirectDebitV03;
    "bah_admi_024_001_01", header, bah_admi_024_001_01, BusinessApplicationHeaderV02;
    "bah_camt_025_001_08", header, bah_camt_025_001_08, BusinessApplicationHeaderV02;
    "bah_camt_029_001", header, bah_camt_029_001, BusinessApplicationHeaderV02;
    "bah_camt_052_001_08", header, bah_camt_052_001_08, BusinessApplicationHeaderV02;
    "bah_camt_053_001_08", header, bah_camt_053_001_08, BusinessApplicationHeaderV02;
    "bah_camt_054_001", header, bah_camt_054_001, BusinessApplicationHeaderV02;
    "bah_camt_055_001_08", header, bah_camt_055_001_08, BusinessApplicationHeaderV02;
    "bah_camt_056_001_08", header, bah_camt_056_001_08, BusinessApplicationHeaderV02;
    "bah_camt_057_001_06", header, bah_camt_057_001_06, BusinessApplicationHeaderV02;
    "bah_camt_058_001_08", header, bah_camt_058_001_08, BusinessApplicationHeaderV02;
    "bah_camt_060_001_05", header, bah_camt_060_001_05, BusinessApplicationHeaderV02;
    "bah_camt_105_001_02", header, bah_camt_105_001_02, BusinessApplicationHeaderV02;
    "bah_camt_105_001_02_mc", header, bah_camt_105_001_02_mc, BusinessApplicationHeaderV02;
    "bah_camt_106_001_02", header, bah_camt_106_001_02, BusinessApplicationHeaderV02;
    "bah_camt_106_001_02_mc", header, bah_camt_106_001_02_mc, BusinessApplicationHeaderV02;
    "bah_camt_107_001_01", header, bah_camt_107_001_01, BusinessApplicationHeaderV02;
    "bah_camt_108_001_01", header, bah_camt_108_001_01, BusinessApplicationHeaderV02;
    "bah_camt_109_001_01", header, bah_camt_109_001_01, BusinessApplicationHeaderV02;
    "bah_pacs_002_001_10", header, bah_pacs_002_001_10, BusinessApplicationHeaderV02;
    "bah_pacs_003_001_08", header, bah_pacs_003_001_08, BusinessApplicationHeaderV02;
    "bah_pacs_004_001_09", header, bah_pacs_004_001_09, BusinessApplicationHeaderV02;
    "bah_pacs_008_001_08", header, bah_pacs_008_001_08, BusinessApplicationHeaderV02;
    "bah_pacs_008_001_08_stp", header, bah_pacs_008_001_08_stp, BusinessApplicationHeaderV02;
    "bah_pacs_009_001_08", header, bah_pacs_009_001_08, BusinessApplicationHeaderV02;
    "bah_pacs_009_001_08_adv", header, bah_pacs_009_001_08_adv, BusinessApplicationHeaderV02;
    "bah_pacs_009_001_08_cov", header, bah_pacs_009_001_08_cov, BusinessApplicationHeaderV02;
    "bah_pacs_010_001_03", header, bah_pacs_010_001_03, BusinessApplicationHeaderV02;
    "bah_pacs_010_001_03_mc", header, bah_pacs_010_001_03_mc, BusinessApplicationHeaderV02;
    "bah_pain_001_001_09", header, bah_pain_001_001_09, BusinessApplicationHeaderV02;
    "bah_pain_002_001_10", header, bah_pain_002_001_10, BusinessApplicationHeaderV02;
    "bah_pain_008_001_08", header, bah_pain_008_001_08, BusinessApplicationHeaderV02;
}
