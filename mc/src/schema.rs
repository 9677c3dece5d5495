//! Child element order of the OOXML complex types used by the library (ECMA-376 sequences).
use crate::opc::Pkg;
use crate::xml::El;

fn order(kind: &str, el: &str) -> Option<&'static str> {
    let k = kind;
    let s = match (k, el) {
        ("sheet", "worksheet") => "sheetPr dimension sheetViews sheetFormatPr cols sheetData sheetCalcPr sheetProtection protectedRanges scenarios autoFilter sortState dataConsolidate customSheetViews mergeCells phoneticPr conditionalFormatting* dataValidations hyperlinks printOptions pageMargins pageSetup headerFooter rowBreaks colBreaks customProperties cellWatches ignoredErrors smartTags drawing legacyDrawing legacyDrawingHF picture oleObjects controls webPublishItems tableParts extLst",
        ("sheet", "chartsheet") => "sheetPr sheetViews sheetProtection customSheetViews pageMargins pageSetup headerFooter drawing legacyDrawing legacyDrawingHF picture webPublishItems extLst",
        ("sheet", "sheetPr") => "tabColor outlinePr pageSetUpPr",
        ("sheet", "sheetViews") => "sheetView*",
        ("sheet", "sheetView") => "pane selection* pivotSelection extLst",
        ("sheet", "cols") => "col*",
        ("sheet", "sheetData") => "row*",
        ("sheet", "row") => "c*",
        ("sheet", "c") => "f v is extLst",
        ("sheet", "is") => "t r*",
        ("sheet", "autoFilter") => "filterColumn* sortState",
        ("sheet", "filterColumn") => "filters top10 customFilters dynamicFilter colorFilter iconFilter",
        ("sheet", "filters") => "filter* dateGroupItem*",
        ("sheet", "customFilters") => "customFilter*",
        ("sheet", "mergeCells") => "mergeCell*",
        ("sheet", "conditionalFormatting") => "cfRule*",
        ("sheet", "cfRule") => "formula* colorScale dataBar iconSet extLst",
        ("sheet", "colorScale") => "cfvo* color*",
        ("sheet", "dataBar") => "cfvo* color",
        ("sheet", "iconSet") => "cfvo*",
        ("sheet", "x14:conditionalFormatting") => "x14:cfRule* xm:sqref",
        ("sheet", "x14:dataBar") => "x14:cfvo* x14:borderColor x14:negativeFillColor x14:negativeBorderColor x14:axisColor",
        ("sheet", "x14:iconSet") => "x14:cfvo* x14:cfIcon*",
        ("sheet", "x14:sparklineGroup") => "x14:colorSeries x14:colorNegative x14:colorAxis x14:colorMarkers x14:colorFirst x14:colorLast x14:colorHigh x14:colorLow xm:f x14:sparklines",
        ("sheet", "x14:sparkline") => "xm:f xm:sqref",
        ("sheet", "x14:sparklines") => "x14:sparkline*",
        ("sheet", "x14:sparklineGroups") => "x14:sparklineGroup*",
        ("sheet", "extLst") => "ext*",
        ("sheet", "ext") => "x14:conditionalFormattings x14:sparklineGroups x14:id",
        ("sheet", "dataValidations") => "dataValidation*",
        ("sheet", "dataValidation") => "formula1 formula2",
        ("sheet", "hyperlinks") => "hyperlink*",
        ("sheet", "headerFooter") => "oddHeader oddFooter evenHeader evenFooter firstHeader firstFooter",
        ("sheet", "rowBreaks") | ("sheet", "colBreaks") => "brk*",
        ("sheet", "ignoredErrors") => "ignoredError*",
        ("sheet", "protectedRanges") => "protectedRange*",
        ("sheet", "tableParts") => "tablePart*",
        ("workbook", "workbook") => "fileVersion fileSharing workbookPr workbookProtection bookViews sheets functionGroups externalReferences definedNames calcPr",
        ("workbook", "sheets") => "sheet*",
        ("workbook", "definedNames") => "definedName*",
        ("workbook", "bookViews") => "workbookView*",
        ("styles", "styleSheet") => "numFmts fonts fills borders cellStyleXfs cellXfs cellStyles dxfs tableStyles colors extLst",
        ("styles", "border") => "left right top bottom diagonal vertical horizontal",
        ("styles", "xf") => "alignment protection extLst",
        ("styles", "dxf") => "font numFmt fill alignment border protection extLst",
        ("styles", "patternFill") => "fgColor bgColor",
        ("styles", "fill") => "patternFill",
        ("styles", "fonts") => "font*",
        ("styles", "fills") => "fill*",
        ("styles", "borders") => "border*",
        ("styles", "cellXfs") | ("styles", "cellStyleXfs") => "xf*",
        ("styles", "numFmts") => "numFmt*",
        ("styles", "dxfs") => "dxf*",
        ("sst", "sst") => "si*",
        ("sst", "si") => "t r* rPh* phoneticPr",
        ("sst", "r") => "rPr t",
        ("table", "table") => "autoFilter sortState tableColumns tableStyleInfo extLst",
        ("table", "tableColumns") => "tableColumn*",
        ("table", "tableColumn") => "calculatedColumnFormula totalsRowFormula",
        ("comments", "comments") => "authors commentList",
        ("comments", "authors") => "author*",
        ("comments", "commentList") => "comment*",
        ("comments", "comment") => "text",
        ("comments", "text") => "t r*",
        ("comments", "r") => "rPr t",
        ("drawing", "xdr:wsDr") => "|xdr:twoCellAnchor* xdr:absoluteAnchor*",
        ("drawing", "xdr:twoCellAnchor") => "xdr:from xdr:to xdr:sp xdr:graphicFrame xdr:pic xdr:clientData",
        ("drawing", "xdr:absoluteAnchor") => "xdr:pos xdr:ext xdr:graphicFrame xdr:clientData",
        ("drawing", "xdr:from") | ("drawing", "xdr:to") => "xdr:col xdr:colOff xdr:row xdr:rowOff",
        ("drawing", "xdr:pic") => "xdr:nvPicPr xdr:blipFill xdr:spPr xdr:style",
        ("drawing", "xdr:nvPicPr") => "xdr:cNvPr xdr:cNvPicPr",
        ("drawing", "xdr:cNvPr") => "a:hlinkClick a:hlinkHover a:extLst",
        ("drawing", "xdr:blipFill") => "a:blip a:srcRect a:tile a:stretch",
        ("drawing", "xdr:sp") => "xdr:nvSpPr xdr:spPr xdr:style xdr:txBody",
        ("drawing", "xdr:graphicFrame") => "xdr:nvGraphicFramePr xdr:xfrm a:graphic",
        ("drawing", "xdr:spPr") => "a:xfrm a:custGeom a:prstGeom a:noFill a:solidFill a:gradFill a:blipFill a:pattFill a:grpFill a:ln a:effectLst a:extLst",
        ("drawing", "xdr:style") => "a:lnRef a:fillRef a:effectRef a:fontRef",
        ("drawing", "xdr:txBody") => "a:bodyPr a:lstStyle a:p*",
        (_, "a:ln") => "a:noFill a:solidFill a:gradFill a:pattFill a:prstDash a:custDash a:round a:bevel a:miter a:headEnd a:tailEnd",
        (_, "a:p") => "a:pPr |a:r* a:fld*| a:endParaRPr",
        (_, "a:fld") => "a:rPr a:pPr a:t",
        (_, "a:r") => "a:rPr a:t",
        (_, "a:rPr") | (_, "a:defRPr") | (_, "a:endParaRPr") => "a:ln a:noFill a:solidFill a:gradFill a:pattFill a:effectLst a:latin a:ea a:cs a:sym a:hlinkClick",
        (_, "a:gradFill") => "a:gsLst a:lin a:path a:tileRect",
        (_, "a:gsLst") => "a:gs*",
        (_, "a:pattFill") => "a:fgClr a:bgClr",
        (_, "a:pPr") => "a:lnSpc a:spcBef a:spcAft a:defRPr",
        ("chart", "c:chartSpace") => "c:date1904 c:lang c:roundedCorners mc:AlternateContent c:style c:clrMapOvr c:pivotSource c:protection c:chart c:spPr c:txPr c:externalData c:printSettings c:userShapes c:extLst",
        ("chart", "c:chart") => "c:title c:autoTitleDeleted c:pivotFmts c:view3D c:floor c:sideWall c:backWall c:plotArea c:legend c:plotVisOnly c:dispBlanksAs c:showDLblsOverMax c:extLst",
        ("chart", "c:plotArea") => "c:layout |c:areaChart* c:barChart* c:bubbleChart* c:doughnutChart* c:lineChart* c:pieChart* c:radarChart* c:scatterChart* c:stockChart*| |c:valAx* c:catAx* c:dateAx* c:serAx*| c:dTable c:spPr c:extLst",
        ("chart", "c:barChart") => "c:barDir c:grouping c:varyColors c:ser* c:dLbls c:gapWidth c:overlap c:serLines c:axId*",
        ("chart", "c:lineChart") => "c:grouping c:varyColors c:ser* c:dLbls c:dropLines c:hiLowLines c:upDownBars c:marker c:smooth c:axId*",
        ("chart", "c:areaChart") => "c:grouping c:varyColors c:ser* c:dLbls c:dropLines c:axId*",
        ("chart", "c:pieChart") => "c:varyColors c:ser* c:dLbls c:firstSliceAng",
        ("chart", "c:doughnutChart") => "c:varyColors c:ser* c:dLbls c:firstSliceAng c:holeSize",
        ("chart", "c:scatterChart") => "c:scatterStyle c:varyColors c:ser* c:dLbls c:axId*",
        ("chart", "c:bubbleChart") => "c:varyColors c:ser* c:dLbls c:bubble3D c:bubbleScale c:showNegBubbles c:sizeRepresents c:axId*",
        ("chart", "c:radarChart") => "c:radarStyle c:varyColors c:ser* c:dLbls c:axId*",
        ("chart", "c:stockChart") => "c:ser* c:dLbls c:dropLines c:hiLowLines c:upDownBars c:axId*",
        ("chart", "c:barChart>c:ser") => "c:idx c:order c:tx c:spPr c:invertIfNegative c:pictureOptions c:dPt* c:dLbls c:trendline* c:errBars c:cat c:val c:shape c:extLst",
        ("chart", "c:lineChart>c:ser") | ("chart", "c:stockChart>c:ser") => "c:idx c:order c:tx c:spPr c:marker c:dPt* c:dLbls c:trendline* c:errBars c:cat c:val c:smooth c:extLst",
        ("chart", "c:pieChart>c:ser") | ("chart", "c:doughnutChart>c:ser") => "c:idx c:order c:tx c:spPr c:explosion c:dPt* c:dLbls c:cat c:val c:extLst",
        ("chart", "c:areaChart>c:ser") => "c:idx c:order c:tx c:spPr c:pictureOptions c:dPt* c:dLbls c:trendline* c:errBars* c:cat c:val c:extLst",
        ("chart", "c:radarChart>c:ser") => "c:idx c:order c:tx c:spPr c:marker c:dPt* c:dLbls c:cat c:val c:extLst",
        ("chart", "c:scatterChart>c:ser") => "c:idx c:order c:tx c:spPr c:marker c:dPt* c:dLbls c:trendline* c:errBars* c:xVal c:yVal c:smooth c:extLst",
        ("chart", "c:dLbls") => "c:dLbl* c:delete c:numFmt c:spPr c:txPr c:dLblPos c:showLegendKey c:showVal c:showCatName c:showSerName c:showPercent c:showBubbleSize c:separator c:showLeaderLines c:leaderLines c:extLst",
        ("chart", "c:dLbl") => "c:idx c:delete c:layout c:tx c:numFmt c:spPr c:txPr c:dLblPos c:showLegendKey c:showVal c:showCatName c:showSerName c:showPercent c:showBubbleSize c:separator c:extLst",
        ("chart", "c:dPt") => "c:idx c:invertIfNegative c:marker c:bubble3D c:explosion c:spPr c:extLst",
        ("chart", "c:trendline") => "c:name c:spPr c:trendlineType c:order c:period c:forward c:backward c:intercept c:dispRSqr c:dispEq c:trendlineLbl",
        ("chart", "c:errBars") => "c:errDir c:errBarType c:errValType c:noEndCap c:plus c:minus c:val c:spPr",
        ("chart", "c:valAx") => "c:axId c:scaling c:delete c:axPos c:majorGridlines c:minorGridlines c:title c:numFmt c:majorTickMark c:minorTickMark c:tickLblPos c:spPr c:txPr c:crossAx c:crosses c:crossesAt c:crossBetween c:majorUnit c:minorUnit c:dispUnits c:extLst",
        ("chart", "c:catAx") => "c:axId c:scaling c:delete c:axPos c:majorGridlines c:minorGridlines c:title c:numFmt c:majorTickMark c:minorTickMark c:tickLblPos c:spPr c:txPr c:crossAx c:crosses c:crossesAt c:auto c:lblAlgn c:lblOffset c:tickLblSkip c:tickMarkSkip c:noMultiLvlLbl c:extLst",
        ("chart", "c:dateAx") => "c:axId c:scaling c:delete c:axPos c:majorGridlines c:minorGridlines c:title c:numFmt c:majorTickMark c:minorTickMark c:tickLblPos c:spPr c:txPr c:crossAx c:crosses c:crossesAt c:auto c:lblOffset c:baseTimeUnit c:majorUnit c:majorTimeUnit c:minorUnit c:minorTimeUnit c:extLst",
        ("chart", "c:scaling") => "c:logBase c:orientation c:max c:min",
        ("chart", "c:legend") => "c:legendPos c:legendEntry* c:layout c:overlay c:spPr c:txPr",
        ("chart", "c:legendEntry") => "c:idx c:delete c:txPr",
        ("chart", "c:title") => "c:tx c:layout c:overlay c:spPr c:txPr",
        ("chart", "c:marker") => "c:symbol c:size c:spPr",
        ("chart", "c:upDownBars") => "c:gapWidth c:upBars c:downBars",
        ("chart", "c:dTable") => "c:showHorzBorder c:showVertBorder c:showOutline c:showKeys c:spPr c:txPr",
        ("chart", "c:numRef") => "c:f c:numCache",
        ("chart", "c:strRef") => "c:f c:strCache",
        ("chart", "c:multiLvlStrRef") => "c:f c:multiLvlStrCache",
        ("chart", "c:numCache") | ("chart", "c:numLit") => "c:formatCode c:ptCount c:pt*",
        ("chart", "c:strCache") | ("chart", "c:strLit") => "c:ptCount c:pt*",
        ("chart", "c:manualLayout") => "c:layoutTarget c:xMode c:yMode c:wMode c:hMode c:x c:y c:w c:h",
        ("chart", "c:spPr") => "a:xfrm a:custGeom a:prstGeom a:noFill a:solidFill a:gradFill a:blipFill a:pattFill a:grpFill a:ln a:effectLst",
        ("chart", "c:txPr") | ("chart", "c:rich") => "a:bodyPr a:lstStyle a:p*",
        ("chart", "c:dispUnits") => "c:custUnit c:builtInUnit c:dispUnitsLbl",
        _ => return None,
    };
    Some(s)
}
pub fn kind(name: &str) -> &'static str {
    if name.starts_with("xl/worksheets/sheet") || name.starts_with("xl/chartsheets/sheet") {
        "sheet"
    } else if name == "xl/workbook.xml" {
        "workbook"
    } else if name == "xl/styles.xml" {
        "styles"
    } else if name == "xl/sharedStrings.xml" {
        "sst"
    } else if name.starts_with("xl/tables/") {
        "table"
    } else if name.starts_with("xl/comments") {
        "comments"
    } else if name.starts_with("xl/drawings/drawing") {
        "drawing"
    } else if name.starts_with("xl/charts/chart") {
        "chart"
    } else {
        ""
    }
}
/// Groups in `|...|` may interleave.
fn slots(spec: &'static str) -> Vec<(usize, &'static str, bool)> {
    let mut v = vec![];
    let mut slot = 0;
    let mut group = false;
    for w in spec.split(' ') {
        let mut w = w;
        if let Some(x) = w.strip_prefix('|') {
            group = true;
            w = x;
        }
        let mut end = false;
        if let Some(x) = w.strip_suffix('|') {
            end = true;
            w = x;
        }
        let many = w.ends_with('*');
        v.push((slot, w.trim_end_matches('*'), many));
        if end {
            group = false;
        }
        if !group {
            slot += 1;
        }
    }
    v
}
fn check_el(kind: &str, parent: &str, e: &El, part: &str) -> Result<(), String> {
    let under = format!("{parent}>{}", e.name);
    if let Some(spec) = order(kind, &e.name).or_else(|| order(kind, &under)) {
        let sl = slots(spec);
        let mut last = 0;
        let mut prev = "";
        let mut counts: Vec<(&str, usize)> = vec![];
        for k in e.els() {
            let Some((s, n, many)) = sl.iter().find(|x| x.1 == k.name) else {
                return Err(format!("{part}: <{}> is not a child of <{}>", k.name, e.name));
            };
            if *s < last {
                return Err(format!("{part}: in <{}>, <{}> comes after <{prev}>", e.name, k.name));
            }
            last = *s;
            prev = n;
            match counts.iter_mut().find(|c| c.0 == *n) {
                Some(c) => {
                    c.1 += 1;
                    if !many {
                        return Err(format!("{part}: in <{}>, <{}> occurs more than once", e.name, k.name));
                    }
                }
                None => counts.push((n, 1)),
            }
        }
    }
    if let Some(c) = e.au("count").or(e.au("uniqueCount")) {
        // Declared counts must match the number of children.
        let applies = matches!(e.name.as_str(), "fonts" | "fills" | "borders" | "cellStyleXfs" | "cellXfs" | "cellStyles" | "dxfs" | "numFmts" | "mergeCells" | "dataValidations" | "tableParts" | "tableColumns" | "rowBreaks" | "colBreaks");
        if applies && c as usize != e.els().count() {
            return Err(format!("{part}: <{} count={c}> has {} children", e.name, e.els().count()));
        }
    }
    for k in e.els() {
        check_el(kind, &e.name, k, part)?;
    }
    Ok(())
}
pub fn check(p: &Pkg) -> Result<(), String> {
    for part in &p.parts {
        let k = kind(&part.name);
        if k.is_empty() {
            continue;
        }
        check_el(k, "", part.xml.as_ref().unwrap(), &part.name)?;
    }
    Ok(())
}
