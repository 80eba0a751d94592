"""What every property's check consists of."""

ASSUMPTIONS = [
    "the Python 2 sources are run as translated by lib2to3 (python 3.12), the way this project is tested here",
    "TLC, the TLA+ CommunityModules (Json, IOUtils) and the projection of inputs and observations into tokens are trusted",
]

PROPS = {
    "P01": {"mc": [{"module": "MC_Catalogue", "thorough": "MC_Catalogue_thorough"}], "conf": ["ReaderTrace"]},
    "P02": {"mc": [{"module": "MC_Catalogue", "thorough": "MC_Catalogue_thorough"}], "conf": ["ReaderTrace"]},
    "P03": {"mc": [{"module": "MC_Catalogue", "thorough": "MC_Catalogue_thorough"}], "conf": ["ReaderTrace"]},
    "P09": {"mc": [{"module": "MC_GardnerKnopoff", "thorough": "MC_GardnerKnopoff_thorough", "workers": 4}, {"module": "MC_Afteran", "thorough": "MC_Afteran_thorough", "workers": 4}], "conf": ["PartitionTrace"]},
    "P10": {"gen": ["Gen_GardnerKnopoff"], "mc": [{"module": "MC_GardnerKnopoff", "thorough": "MC_GardnerKnopoff_thorough", "workers": 4}], "conf": ["GKTrace"]},
    "P11": {"gen": ["Gen_Afteran"], "mc": [{"module": "MC_Afteran", "thorough": "MC_Afteran_thorough", "workers": 4}], "conf": ["AFTrace"]},
    "P05": {"mc": [{"module": "MC_Assembly", "thorough": "MC_Assembly_thorough"}], "conf": ["AssemblyTrace"]},
    "P06": {"gen": ["Gen_Workflow"], "mc": [{"module": "MC_Workflow", "thorough": "MC_Workflow_thorough"}], "conf": ["WorkflowTrace"]},
    "P07": {"mc": [{"module": "MC_Isolation", "thorough": "MC_Isolation_thorough", "workers": 4}], "conf": ["IsolationTrace"]},
    "P08": {"mc": [{"module": "MC_Geometry", "thorough": "MC_Geometry_thorough", "workers": 4}], "conf": ["FilterTrace"]},
    "P04": {"gen": ["Gen_CatalogueStore"], "mc": [{"module": "MC_CatalogueStore", "thorough": "MC_CatalogueStore_thorough"}], "conf": ["StoreTrace"]},
    "P14": {"mc": [{"module": "MC_Preprocess", "thorough": "MC_Preprocess_thorough"}], "conf": ["SelectTrace"]},
    "P16": {"gen": ["Gen_CompletenessStore"], "mc": [{"module": "MC_CompletenessStore", "thorough": "MC_CompletenessStore_thorough"}], "conf": ["TableTrace"]},
    "P17": {"gen": ["Gen_Preprocess"], "mc": [{"module": "MC_Preprocess", "thorough": "MC_Preprocess_thorough"}], "conf": ["PrepTrace"]},
    "P12": {"mc": [{"module": "MC_Windows", "thorough": "MC_Windows_thorough"}], "conf": ["WindowTrace"]},
    "P13": {"mc": [{"module": "MC_Calendar", "thorough": "MC_Calendar_thorough"}, {"module": "MC_Sphere", "thorough": "MC_Sphere_thorough"}], "conf": ["CalendarTrace", "SphereTrace"]},
    "P15": {"gen": ["Gen_Stepp"], "mc": [{"module": "MC_Stepp", "thorough": "MC_Stepp_thorough", "workers": 4}], "conf": ["SteppTrace"]},
    "P19": {"gen": ["Gen_SourceEstimates"], "mc": [{"module": "MC_SourceEstimates", "thorough": "MC_SourceEstimates_thorough", "workers": 4}], "conf": ["EstimateTrace"]},
    "P20": {"gen": ["Gen_WeichertPrep"], "mc": [{"module": "MC_WeichertPrep", "thorough": "MC_WeichertPrep_thorough", "workers": 4}], "conf": ["WeichertPrepTrace"]},
    "P21": {"mc": [{"module": "MC_Weichert", "thorough": "MC_Weichert_thorough", "workers": 4}], "conf": ["WeichertTrace", "WeichertRunTrace"]},
    "P22": {"gen": ["Gen_MLE"], "mc": [{"module": "MC_MLE", "thorough": "MC_MLE_thorough", "workers": 4}], "conf": ["MLETrace", "RecTableTrace"]},
    "P23": {"mc": [{"module": "MC_Kijko", "thorough": "MC_Kijko_thorough", "workers": 2}, {"module": "MC_Kernel", "thorough": "MC_Kernel_thorough", "workers": 4}], "conf": ["KijkoTrace", "KernelTrace"]},
    "P24": {"mc": [{"module": "MC_Cumulative", "thorough": "MC_Cumulative_thorough", "workers": 4}], "conf": ["MomentTrace"]},
    "P25": {"mc": [{"module": "MC_Nrml", "thorough": "MC_Nrml_thorough", "workers": 4}], "conf": ["NrmlTrace"]},
    "P26": {"gen": ["Gen_NrmlFiles"], "mc": [{"module": "MC_NrmlFiles", "thorough": "MC_NrmlFiles_thorough", "workers": 4}, {"module": "MC_Nrml", "thorough": "MC_Nrml_thorough", "workers": 4}], "conf": ["NrmlFilesTrace"]},
    "P27": {"mc": [{"module": "MC_Program", "thorough": "MC_Program_thorough", "workers": 4}], "conf": ["ProgramTrace"]},
    "P28": {"mc": [{"module": "MC_SimpleFault", "thorough": "MC_SimpleFault_thorough", "workers": 4}], "conf": ["FaultGeoTrace"]},
    "P29": {"gen": ["Gen_Regions"], "mc": [{"module": "MC_Regions", "thorough": "MC_Regions_thorough", "workers": 4}], "conf": ["RegionsTrace"]},
    "P30": {"mc": [{"module": "MC_FaultRates", "thorough": "MC_FaultRates_thorough", "workers": 4}], "conf": ["FaultRatesTrace"]},
    "P31": {"mc": [{"module": "MC_Console", "thorough": "MC_Console_thorough", "workers": 4}], "conf": ["ConsoleTrace"]},
    "P32": {"gen": ["Gen_ValueObjects"], "mc": [{"module": "MC_ValueObjects", "thorough": "MC_ValueObjects_thorough", "workers": 4}], "conf": ["ValueTrace"]},
}
