// Generated by tools/mkmimc.py: round constants of the transcript hash over the two fields.
module mimcdata {
  pure val MIMC_R: List[int] = [
    1720695226910748643365379880205188235903500136654766565155825520153510699747,
    2035761685729154576007912918672802560711149892610437039634686047698909897499,
    2389415420130679436936164080168098518146356291625888540527802721151014545111,
    20179358001253785842095775375113714462028622439560871973596523414005623482614,
    5823789301183391495657471717163878825064316670478929294443916793433984738497,
    4097638260783070201725952746434905279614532835091047291851520846150028786809,
    11425020894725386797697218428344793577667938042376042930761545667821552085555,
    11440264956588445345863587663807035799920412924376075702975242149503655558990,
    15182110012596917519902563876558411964609297780583085035414439355613718852371,
    20873648251715540323465826950531146600781146763049847816031040950408030093831,
    16026980768177518501091880629134154069615594639387501191569174173923583957476,
    1228899075837375773549737622347426459229062586090347338957458654451127386062,
    19871057683938295244934964263952873581888971867116597431459264169292975737081,
    15383888856411945328710499654731107907329635451735202672333412707407088837464,
    5964356042621763563937086365344087120284616992582510974803409825135736324981,
    16508619963135369226130586611029072827972104233462945686731970961787490256776,
    16010203731730820851559894540446583991750241565655503691688576862656547043126,
    12938992423968894595101470495821258299660038216035495512934274641517088062670,
    8860121609025421083303572052028284278748140878469865454979431020173680178637,
    6617991908727647616776350949665896565336331668669401991086078672075513594389,
    19013328044318225249317875054492364347719462637124600240550777316822788427101,
    4350616165110150813677897621148600503546917677303121759852922817204833151009,
    7817834729909925801425177377477311999774685297875876919776272012100162820874,
    4573255863813361586213607791154133647519800336988127208019320933457319410709,
    8685707944946452802287242232331967487090553049478332207355960652562340928991,
    21654100057360905880357639357778119475922385760197515599655949912548800354481,
    10567058932648764800807655049699161830759425128054595626790521656988204469900,
    12377528435752019968839108372942416641604923295272645984367789091206713518571,
    17184715246413534735637392127072391291509279796979132348198752364192334369401,
    7485923117788382244191791689274968908571976246398253333399597079026358574652,
    9946403653086476590599245924887545291253746421478610295661463995774350963057,
    21040993033909494086408350317441532008764572780210036450599639425190130427456,
    18636614688862097589472937241427713245728107449318304737984790925774816606070,
    16067890133915506881226961507308243588074151903787505824574787511558384148761,
    7796109227545544893855031379969254521132822559611536260783673673474743181885,
    4292115926218245452241957072303327727293161561830067464356581276469424168431,
    19720428590871561872909605469841179513935489754642643434286043888711413283851,
    5653728171036014372714478450337779675511570037223155203486820381870095824772,
    17834083453995449171030768579060691843288672510671574254888419108088935001484,
    49801799615466320095710284421832472346888430893144713411480685455340786760,
    2064530438449775468593219725828850424241274918482277666901143361254781793773,
    12411200397205151644909270856270122947225082250744578115348672535960716416390,
    5065760685166297273360345790709831235273242496822583763702570993150164259139,
    21636397184860296084208620330154120768192302425580314335419909820386730433769,
    6267358861066770632863100179091420286630482487390618342625561553956560196507,
    991450407067754246258355373978234188383836788747015822623627559207687603081]
  pure val MIMC_Q: List[int] = [
    7943356093863549463976045593951836905054312137976778205468075662018326155513,
    20836382280871985173272577265542336395639745111669968233278324787131964149190,
    16365169272624972332328777014751729443657771768802332185668873103200585089257,
    8698141257210229057805491187960765473943094652498455376599457997676462795778,
    20856231627781480177387048921014280286796660884334708986396011727869115991701,
    20408721910526146717448550366222618699897929163931787304904305732012007549299,
    11933241495292581436297258994634857680477222577453415524834919183340715701142,
    13860918557878409602975609380000684171539889471601942998501276559942156349998,
    19594495169434862164609768415379371800546869210110289089073493252865338841630,
    13466566544711005727811964351700843668685786375008690809445677673815148244371,
    14760595509885032942892779349701697467671074882923046058635268260872382872842,
    2358682951832209680768489837081472297566805647638281109574017369157024006572,
    10220537413149041515724118139765662949432776721295581009204737232213226350831,
    18529776232388408124485477768330163614580133956091811954028599243021106960373,
    3153136766309577426895570073431505106104990540316756796685816388833118615636,
    20582493997232116328935106726542955718493517574646024352693496170114790641406,
    19497542848311320267054831223681268346780728453951120821284602364642983220466,
    21652539686379678039350349206655194937966087993268158832132677964419802360370,
    14199562877894922519535270484885730269428265104917444048563144924328540880629,
    20955714771034203473653739650140752816458589892720852674180300694088510078015,
    20366123081560797847869205955419973375428489071215419182622861468809538425199,
    20290554482621289581303545838556003273367251211681354958552708289906641814943,
    11772878943141078798460161692246481449606549548685463874586059358180307350019,
    7772175762194513412888666989692818573971712321531328216519032367836320743033,
    16085242109337945622209092709932419861193520875528490541709614035707708008066,
    1448132578903870170768987373159892195655664270227962876067569278813763454396,
    16404917261042780481982727492841800819625779795982672281968130654367288442382,
    5434224831670696348372588770959037711174617654449193486651158939789617658448,
    9825411738190477863986295148324692585115117890035648277318993590919300835681,
    15763311652811804844457245019624156385515696569921938429009905664315939227522,
    19680051121626624627122992012336839230319415563084322660165773997361504893623,
    2813472011225204651806088669286994218203618101161437185330717166341931354541,
    14628484777474403757992842022097798327186685321328585527608157261067296086836,
    16474395985628493346865302650618218589008919893831836011301564054379093304280,
    14735191403457935718509899812461477550592774932175913575890189177730193193202,
    7293030885743055888256330535437993596674599921371209764139568958303803138366,
    19100535303537701644671277201579833193953732929448510785591503579131657238166,
    21713646626378588227361105254354752546252655067221215797610183327737724597622,
    18463450324510861307613535720935262359885881866062303437397966547287853356570,
    4481987888839412179936358469878041177625991845888932275503852698918084016028,
    11743707323110346935232864513802633047058824524202468516209678621386933807206,
    13382578965096557146185891030371718341250836748992951647680694542527757175341,
    20593009085760456212650483555187577676815310895542326611452176943410292060303,
    20137710794970499869681920788180339632417045841079932175001769434392315513100,
    63010609738581068216168768106099045118522124546368430290401576414580661509,
    6011393194751044751396399769099278112020130675765000895245972985067389884620]
}
