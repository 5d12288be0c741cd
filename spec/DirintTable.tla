---------------------------- MODULE DirintTable ----------------------------
(* Coefficients of DIRINT (Perez et al. 1992, table II), by bin of clearness, zenith,
   change of clearness (7: not used) and precipitable water (5: not known).      *)
DirintTable == <<
 <<<<<<"0.38523", "0.38523", "0.38523", "0.46288", "0.31744">>, <<"0.33839", "0.33839", "0.22127", "0.31673", "0.50365">>, <<"0.23568", "0.23568", "0.24128", "0.15783", "0.26944">>, <<"0.83013", "0.83013", "0.17197", "0.84107", "0.45737">>, <<"0.54801", "0.54801", "0.478", "0.96688", "1.03637">>, <<"0.54801", "0.54801", "1.0", "3.01237", "1.97654">>, <<"0.58269", "0.58269", "0.22972", "0.89271", "0.56995">>>>,
   <<<<"0.13128", "0.13128", "0.38546", "0.51107", "0.12794">>, <<"0.22371", "0.22371", "0.19356", "0.30456", "0.19394">>, <<"0.22997", "0.22997", "0.27502", "0.31273", "0.24461">>, <<"0.0901", "0.18458", "0.2605", "0.68748", "0.57944">>, <<"0.13153", "0.13153", "0.37019", "1.38035", "1.05227">>, <<"1.11625", "1.11625", "0.92803", "3.52549", "2.31692">>, <<"0.0901", "0.237", "0.30004", "0.81247", "0.66497">>>>,
   <<<<"0.58751", "0.13", "0.4", "0.53721", "0.83249">>, <<"0.30621", "0.12983", "0.20446", "0.5", "0.68164">>, <<"0.22402", "0.26062", "0.33408", "0.50104", "0.35047">>, <<"0.42154", "0.75397", "0.75066", "3.70684", "0.98379">>, <<"0.70668", "0.37353", "1.24567", "0.86486", "1.99263">>, <<"4.8644", "0.11739", "0.26518", "0.35918", "3.31082">>, <<"0.39208", "0.49329", "0.65156", "1.93278", "0.89873">>>>,
   <<<<"0.12697", "0.12697", "0.12697", "0.12697", "0.12697">>, <<"0.81082", "0.81082", "0.81082", "0.81082", "0.81082">>, <<"3.24168", "2.5", "2.29144", "2.29144", "2.29144">>, <<"4.0", "3.0", "2.0", "0.97543", "1.96557">>, <<"12.49417", "12.49417", "8.0", "5.08352", "8.79239">>, <<"21.74424", "21.74424", "21.74424", "21.74424", "21.74424">>, <<"3.24168", "12.49417", "1.62076", "1.37525", "2.33162">>>>,
   <<<<"0.12697", "0.12697", "0.12697", "0.12697", "0.12697">>, <<"0.81082", "0.81082", "0.81082", "0.81082", "0.81082">>, <<"3.24168", "2.5", "2.29144", "2.29144", "2.29144">>, <<"4.0", "3.0", "2.0", "0.97543", "1.96557">>, <<"12.49417", "12.49417", "8.0", "5.08352", "8.79239">>, <<"21.74424", "21.74424", "21.74424", "21.74424", "21.74424">>, <<"3.24168", "12.49417", "1.62076", "1.37525", "2.33162">>>>,
   <<<<"0.12697", "0.12697", "0.12697", "0.12697", "0.12697">>, <<"0.81082", "0.81082", "0.81082", "0.81082", "0.81082">>, <<"3.24168", "2.5", "2.29144", "2.29144", "2.29144">>, <<"4.0", "3.0", "2.0", "0.97543", "1.96557">>, <<"12.49417", "12.49417", "8.0", "5.08352", "8.79239">>, <<"21.74424", "21.74424", "21.74424", "21.74424", "21.74424">>, <<"3.24168", "12.49417", "1.62076", "1.37525", "2.33162">>>>>>,
 <<<<<<"0.33744", "0.33744", "0.96911", "1.09719", "1.11608">>, <<"0.33744", "0.33744", "0.96911", "1.11603", "0.6239">>, <<"0.33744", "0.33744", "1.53059", "1.02442", "0.90848">>, <<"0.58404", "0.58404", "0.84725", "0.91494", "1.2893">>, <<"0.33744", "0.33744", "0.31024", "1.43502", "1.85283">>, <<"0.33744", "0.33744", "1.01501", "1.09719", "2.11723">>, <<"0.33744", "0.33744", "0.96911", "1.14573", "1.4764">>>>,
   <<<<"0.3", "0.3", "0.7", "1.1", "0.79694">>, <<"0.21987", "0.21987", "0.52653", "0.80961", "0.6493">>, <<"0.38665", "0.38665", "0.11932", "0.57612", "0.68546">>, <<"0.74673", "0.39983", "0.47097", "0.98653", "0.78537">>, <<"0.57542", "0.9367", "1.6492", "1.49584", "1.33559">>, <<"1.31967", "4.00257", "1.27639", "2.64455", "2.51867">>, <<"0.66519", "0.67891", "1.01236", "1.19994", "0.98658">>>>,
   <<<<"0.37887", "0.97406", "0.5", "0.49188", "0.66529">>, <<"0.10521", "0.26347", "0.40704", "0.55346", "0.58259">>, <<"0.3129", "0.34524", "1.14418", "0.85479", "0.61228">>, <<"0.11907", "0.36512", "0.56052", "0.79372", "0.8026">>, <<"0.78161", "0.83739", "1.27042", "1.53798", "1.29295">>, <<"1.15229", "1.15229", "1.49208", "1.24537", "2.1771">>, <<"0.42466", "0.52955", "0.96691", "1.03346", "0.95873">>>>,
   <<<<"0.31059", "0.71441", "0.25245", "0.5", "0.6076">>, <<"0.97519", "0.36342", "0.5", "0.4", "0.5028">>, <<"0.17558", "0.19625", "0.47636", "1.07247", "0.49051">>, <<"0.71928", "0.69862", "0.65777", "1.19084", "0.68111">>, <<"0.42624", "1.46484", "0.67855", "1.15773", "0.97843">>, <<"2.50112", "1.78913", "1.38709", "2.39418", "2.39418">>, <<"0.49164", "0.67761", "0.68561", "1.0824", "0.73541">>>>,
   <<<<"0.597", "0.5", "0.3", "0.31005", "0.41351">>, <<"0.31479", "0.33631", "0.4", "0.4", "0.44246">>, <<"0.16651", "0.46044", "0.55257", "1.0", "0.46161">>, <<"0.40102", "0.55911", "0.40363", "1.01671", "0.67149">>, <<"0.40036", "0.75083", "0.84264", "1.8026", "1.02383">>, <<"3.3153", "1.51038", "2.44365", "1.63882", "2.13399">>, <<"0.53079", "0.74585", "0.69305", "1.45804", "0.8045">>>>,
   <<<<"0.597", "0.5", "0.3", "0.31005", "0.80092">>, <<"0.31479", "0.33631", "0.4", "0.4", "0.23704">>, <<"0.16651", "0.46044", "0.55257", "1.0", "0.58199">>, <<"0.40102", "0.55911", "0.40363", "1.01671", "0.89857">>, <<"0.40036", "0.75083", "0.84264", "1.8026", "3.40039">>, <<"3.3153", "1.51038", "2.44365", "1.63882", "2.50878">>, <<"0.20434", "1.15774", "2.00308", "2.62208", "1.40938">>>>>>,
 <<<<<<"1.24221", "1.24221", "1.24221", "1.24221", "1.24221">>, <<"0.05698", "0.05698", "0.65699", "0.65699", "0.92516">>, <<"0.08909", "0.08909", "1.04043", "1.23248", "1.2053">>, <<"1.05385", "1.05385", "1.39969", "1.08464", "1.23334">>, <<"1.15154", "1.15154", "1.11829", "1.53164", "1.41184">>, <<"1.49498", "1.49498", "1.7", "1.80081", "1.6716">>, <<"1.01845", "1.01845", "1.1536", "1.32189", "1.29467">>>>,
   <<<<"0.7", "0.7", "1.02346", "0.7", "0.94583">>, <<"0.8863", "0.8863", "1.33362", "0.8", "1.06662">>, <<"0.90218", "0.90218", "0.95433", "1.12669", "1.09731">>, <<"1.0953", "1.07506", "1.17649", "1.13947", "1.09611">>, <<"1.20166", "1.20166", "1.4382", "1.25628", "1.19806">>, <<"1.52585", "1.52585", "1.86916", "1.98541", "1.91159">>, <<"1.28822", "1.08281", "1.28637", "1.16617", "1.11933">>>>,
   <<<<"0.6", "1.02991", "0.85989", "0.55", "0.8136">>, <<"0.60445", "1.02991", "0.85989", "0.6567", "0.92884">>, <<"0.45585", "0.75058", "0.80493", "0.823", "0.911">>, <<"0.52658", "0.93231", "0.90862", "0.98352", "0.98809">>, <<"1.03611", "1.10069", "0.84838", "1.03527", "1.04238">>, <<"1.04844", "1.65272", "0.9", "2.35041", "1.08295">>, <<"0.81741", "0.97616", "0.8613", "0.97478", "1.00458">>>>,
   <<<<"0.78211", "0.56428", "0.6", "0.6", "0.66574">>, <<"0.89448", "0.68073", "0.54199", "0.8", "0.66914">>, <<"0.48746", "0.81895", "0.84183", "0.87254", "0.70904">>, <<"0.70931", "0.87278", "0.90848", "0.95329", "0.84435">>, <<"0.86392", "0.94777", "0.87622", "1.07875", "0.93691">>, <<"1.28035", "0.86672", "0.76979", "1.07875", "0.97513">>, <<"0.72542", "0.86997", "0.86881", "0.95119", "0.82922">>>>,
   <<<<"0.79175", "0.65404", "0.48317", "0.409", "0.59718">>, <<"0.56614", "0.94899", "0.97182", "0.65357", "0.71855">>, <<"0.64871", "0.63773", "0.87051", "0.8606", "0.6943">>, <<"0.63763", "0.76761", "0.92567", "0.99031", "0.84767">>, <<"0.73638", "0.94606", "1.11759", "1.02934", "0.94702">>, <<"1.18097", "0.85", "1.05", "0.95", "0.88858">>, <<"0.70056", "0.80144", "0.96197", "0.90614", "0.82388">>>>,
   <<<<"0.5", "0.5", "0.58677", "0.47055", "0.62979">>, <<"0.5", "0.5", "1.05622", "1.26014", "0.65814">>, <<"0.5", "0.5", "0.63183", "0.84262", "0.58278">>, <<"0.55471", "0.73473", "0.98582", "0.91564", "0.89826">>, <<"0.71251", "1.20599", "0.90951", "1.07826", "0.88561">>, <<"1.89926", "1.55971", "1.0", "1.15", "1.12039">>, <<"0.65388", "0.79312", "0.90332", "0.94407", "0.79613">>>>>>,
 <<<<<<"1.0", "1.0", "1.05", "1.17038", "1.17809">>, <<"0.96058", "0.96058", "1.05953", "1.17903", "1.13169">>, <<"0.87147", "0.87147", "0.99586", "1.14191", "1.1146">>, <<"1.20159", "1.20159", "0.99361", "1.10938", "1.12632">>, <<"1.06501", "1.06501", "0.82866", "0.93997", "1.01793">>, <<"1.06501", "1.06501", "0.62369", "1.11962", "1.13226">>, <<"1.07157", "1.07157", "0.95807", "1.11413", "1.12711">>>>,
   <<<<"0.95", "0.97339", "0.85252", "1.0922", "1.09659">>, <<"0.80412", "0.91387", "0.98099", "1.09458", "1.04242">>, <<"0.73754", "0.93597", "0.99994", "1.05649", "1.05006">>, <<"1.03298", "1.03454", "0.96846", "1.03208", "1.01578">>, <<"0.9", "0.97721", "0.94596", "1.00884", "0.96996">>, <<"0.6", "0.75", "0.75", "0.84471", "0.8991">>, <<"0.9268", "0.96503", "0.96852", "1.04491", "1.03231">>>>,
   <<<<"0.85", "1.02971", "0.9611", "1.05567", "1.0097">>, <<"0.81853", "0.96001", "0.99645", "1.08197", "1.03647">>, <<"0.76538", "0.9535", "0.94826", "1.05211", "1.00014">>, <<"0.77561", "0.90961", "0.9278", "0.9878", "0.9521">>, <<"1.00099", "0.88188", "0.87595", "0.9491", "0.89369">>, <<"0.90237", "0.87596", "0.80799", "0.94241", "0.91792">>, <<"0.85658", "0.92827", "0.94682", "1.03226", "0.97299">>>>,
   <<<<"0.75", "0.85793", "0.9838", "1.05654", "0.98024">>, <<"0.75", "0.98701", "1.01373", "1.13378", "1.03825">>, <<"0.8", "0.94738", "1.01238", "1.09127", "0.99984">>, <<"0.8", "0.91455", "0.90857", "0.99919", "0.91523">>, <<"0.77854", "0.80059", "0.79907", "0.90218", "0.85156">>, <<"0.68019", "0.31741", "0.50768", "0.38891", "0.64671">>, <<"0.79492", "0.91278", "0.96083", "1.05711", "0.94795">>>>,
   <<<<"0.75", "0.83389", "0.86753", "1.05989", "0.93284">>, <<"0.9797", "0.97147", "0.99551", "1.06849", "1.03015">>, <<"0.85885", "0.98792", "1.04322", "1.1087", "1.0449">>, <<"0.8024", "0.95511", "0.91166", "1.04507", "0.94447">>, <<"0.88489", "0.76621", "0.88539", "0.85907", "0.81819">>, <<"0.61568", "0.7", "0.85", "0.62462", "0.6693">>, <<"0.83557", "0.94615", "0.97709", "1.04935", "0.97997">>>>,
   <<<<"0.68922", "0.8096", "0.9", "0.7895", "0.85399">>, <<"0.85466", "0.85284", "0.9382", "0.92311", "0.95501">>, <<"0.9386", "0.93298", "1.01039", "1.04395", "1.04164">>, <<"0.84362", "0.9813", "0.95159", "0.9461", "0.96633">>, <<"0.69474", "0.81469", "0.57265", "0.4", "0.72683">>, <<"0.21137", "0.67178", "0.41634", "0.29729", "0.49805">>, <<"0.84354", "0.88233", "0.91176", "0.89842", "0.96021">>>>>>,
 <<<<<<"1.05488", "1.07521", "1.06846", "1.15337", "1.06922">>, <<"1.0", "1.06222", "1.01347", "1.08817", "1.0462">>, <<"0.88509", "0.99353", "0.94259", "1.05499", "1.01274">>, <<"0.92", "0.95", "0.97872", "1.02028", "0.98444">>, <<"0.85", "0.9085", "0.83994", "0.98557", "0.96218">>, <<"0.8", "0.8", "0.81008", "0.95", "0.96155">>, <<"1.03859", "1.0632", "1.03444", "1.11278", "1.0378">>>>,
   <<<<"1.01761", "1.02836", "1.05896", "1.13318", "1.04562">>, <<"0.92", "0.99897", "1.03359", "1.08903", "1.02206">>, <<"0.91237", "0.94993", "0.97977", "1.02042", "0.98177">>, <<"0.84716", "0.9353", "0.93054", "0.95505", "0.94656">>, <<"0.88026", "0.86711", "0.87413", "0.97265", "0.88342">>, <<"0.62715", "0.62715", "0.7", "0.77407", "0.84513">>, <<"0.9737", "1.00624", "1.02619", "1.07196", "1.01724">>>>,
   <<<<"1.02871", "1.01757", "1.0259", "1.08179", "1.02424">>, <<"0.92498", "0.9855", "1.0141", "1.09221", "0.99961">>, <<"0.82857", "0.93492", "0.99495", "1.02459", "0.94971">>, <<"0.90081", "0.90133", "0.92883", "0.97957", "0.9131">>, <<"0.76103", "0.84515", "0.80536", "0.93679", "0.85346">>, <<"0.6264", "0.54675", "0.7305", "0.85", "0.68905">>, <<"0.95763", "0.98548", "0.99179", "1.05022", "0.9879">>>>,
   <<<<"0.99273", "0.99388", "1.01715", "1.05912", "1.01745">>, <<"0.97561", "0.98716", "1.02682", "1.07544", "1.00725">>, <<"0.87109", "0.93319", "0.97469", "0.97984", "0.95273">>, <<"0.82875", "0.86809", "0.83492", "0.90551", "0.87153">>, <<"0.78154", "0.78247", "0.76791", "0.76414", "0.79589">>, <<"0.74346", "0.69339", "0.51487", "0.63015", "0.71566">>, <<"0.93476", "0.95787", "0.95964", "0.97251", "0.98164">>>>,
   <<<<"0.96584", "0.94124", "0.9871", "1.02254", "1.01116">>, <<"0.98863", "0.99477", "0.97659", "0.95", "1.03484">>, <<"0.9582", "1.01808", "0.97448", "0.92", "0.98987">>, <<"0.81172", "0.86909", "0.81202", "0.85", "0.82105">>, <<"0.68203", "0.67948", "0.63245", "0.74658", "0.73855">>, <<"0.66829", "0.44586", "0.5", "0.67892", "0.69651">>, <<"0.92694", "0.95335", "0.95905", "0.87621", "0.99149">>>>,
   <<<<"0.94894", "0.99776", "0.85", "0.82652", "0.99847">>, <<"1.01786", "0.97", "0.85", "0.7", "0.98856">>, <<"1.0", "0.95", "0.85", "0.60624", "0.94726">>, <<"1.0", "0.74614", "0.75174", "0.59839", "0.72523">>, <<"0.92221", "0.5", "0.3768", "0.51711", "0.54863">>, <<"0.5", "0.45", "0.42997", "0.40449", "0.53994">>, <<"0.96043", "0.88163", "0.77564", "0.59635", "0.93768">>>>>>,
 <<<<<<"1.03", "1.04", "1.0", "1.0", "1.04951">>, <<"1.05", "0.99", "0.99", "0.95", "0.99653">>, <<"1.05", "0.99", "0.99", "0.82", "0.97194">>, <<"1.05", "0.79", "0.88", "0.82", "0.95184">>, <<"1.0", "0.53", "0.44", "0.71", "0.92873">>, <<"0.54", "0.47", "0.5", "0.55", "0.77395">>, <<"1.03827", "0.92018", "0.91093", "0.82114", "1.03456">>>>,
   <<<<"1.04102", "0.99752", "0.9616", "1.0", "1.03578">>, <<"0.94803", "0.98", "0.9", "0.95036", "0.97746">>, <<"0.95", "0.97725", "0.86927", "0.8", "0.95168">>, <<"0.95187", "0.85", "0.74877", "0.7", "0.88385">>, <<"0.9", "0.82319", "0.72745", "0.6", "0.83987">>, <<"0.85", "0.80502", "0.69231", "0.5", "0.78841">>, <<"1.01009", "0.89527", "0.77303", "0.81628", "1.01168">>>>,
   <<<<"1.02245", "1.0046", "0.98365", "1.0", "1.03294">>, <<"0.94396", "0.99924", "0.98392", "0.90599", "0.97815">>, <<"0.93624", "0.94648", "0.85", "0.85", "0.93032">>, <<"0.81642", "0.885", "0.64495", "0.81765", "0.86531">>, <<"0.74296", "0.76569", "0.56152", "0.7", "0.82714">>, <<"0.64387", "0.59671", "0.47446", "0.6", "0.6512">>, <<"0.97174", "0.94056", "0.71488", "0.86438", "1.00165">>>>,
   <<<<"0.99526", "0.97701", "1.0", "1.0", "1.03525">>, <<"0.93981", "0.97525", "0.93998", "0.95", "0.98255">>, <<"0.87687", "0.87944", "0.85", "0.9", "0.91781">>, <<"0.87348", "0.87345", "0.75147", "0.85", "0.86304">>, <<"0.76147", "0.70236", "0.63877", "0.75", "0.78312">>, <<"0.73408", "0.65", "0.6", "0.65", "0.71566">>, <<"0.94216", "0.9191", "0.77034", "0.73117", "0.99518">>>>,
   <<<<"0.95256", "0.91678", "0.92", "0.9", "1.00588">>, <<"0.92862", "0.99442", "0.9", "0.9", "0.98372">>, <<"0.91307", "0.85", "0.85", "0.8", "0.92428">>, <<"0.86809", "0.80717", "0.82355", "0.6", "0.84452">>, <<"0.76957", "0.71987", "0.65", "0.55", "0.7335">>, <<"0.58025", "0.65", "0.6", "0.5", "0.62885">>, <<"0.90477", "0.85265", "0.70837", "0.49373", "0.94903">>>>,
   <<<<"0.91197", "0.8", "0.8", "0.8", "0.95632">>, <<"0.91262", "0.68261", "0.75", "0.7", "0.95011">>, <<"0.65345", "0.65933", "0.7", "0.6", "0.85611">>, <<"0.64844", "0.6", "0.64112", "0.5", "0.69578">>, <<"0.57", "0.55", "0.5988", "0.4", "0.56015">>, <<"0.47523", "0.5", "0.51864", "0.33997", "0.52023">>, <<"0.74344", "0.59219", "0.60306", "0.31693", "0.79439">>>>>>>>
=============================================================================
