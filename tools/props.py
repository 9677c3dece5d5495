HOOK_COMMITS = ["4fb0b1d8087f38503b7e0ecd8db234865c027de1"]
MC = "explicit enumeration of operation sequences against a reference model, each replayed on the real code"
P = []
def prop(**k):
    P.append(k)

prop(id="C01", title="A saved worksheet holds exactly the last value and format of each cell",
  statement="After any sequence of worksheet writes, the saved file contains exactly the cells written, each with the value, formula, result and format of the last operation that affected it, and no others. Clearing a cell or its format, setting a format or formula result later, and row, column and range writes affect exactly the cells they name; an unformatted cell takes its row format, else its column format.",
  over=["histories", "inputs"], quant="all sequences of write, format, clear and result operations on overlapping cells, and all cell positions",
  why="Unit tests compare fixed programs with fixed files; each overwrites few cells in one order, so the effect of one operation on another's cell is untested.",
  files=["src/worksheet.rs", "src/format.rs", "src/workbook.rs"],
  mechanism=[("cell table insert and overwrite", "src/worksheet.rs insert_cell, insert_cell_format, clear_cell_internal"), ("format lookup", "src/worksheet.rs format_xf_index, row_col_format, get_cell_xf_index"), ("cell writers", "src/worksheet.rs write_data_table and write_*_cell")],
  state=[("cell table", "row to column to typed cell")], technique=MC, level="model_checking",
  note="Every sequence up to depth 2 over 92 operations and depth 3 (thorough 4) over 18; every cell kind at 169 boundary positions. Trusts the independent package reader.")

prop(id="C03", title="Every saved package is a closed and consistent OPC package",
  statement="For every combination of features, the saved zip archive is a closed package: each part is listed once, has the content type of its kind and is reached by exactly the relationships that need it; every relationship target, relationship id, sheet, drawing, table, comment, VML, chart, image, macro, metadata and rich value reference resolves to a part or index that exists; counts and titles in the package properties match the sheets and names.",
  over=["inputs", "histories"], quant="all combinations of workbook level features with each sheet feature, all pairs and triples of sheet features over up to three sheets, in normal, low memory and constant memory sheets and with chartsheets",
  why="Each test file has one or two features; part numbering and relationship ids depend on how many objects of every other kind come before, over all sheets.",
  files=["src/packager.rs", "src/workbook.rs", "src/worksheet.rs", "src/content_types.rs", "src/relationship.rs", "src/app.rs", "src/rich_value.rs", "src/rich_value_rel.rs", "src/metadata.rs"],
  mechanism=[("part assembly", "src/packager.rs assemble_file, write_*"), ("package options and object numbering", "src/workbook.rs set_package_options, prepare_*"), ("relationship ids", "src/worksheet.rs prepare_worksheet_images, prepare_worksheet_charts, add_*_rel_link")],
  state=[("package", "parts, content types and relationships of the saved file")], technique=MC, level="model_checking",
  note="11 workbook features x 52 sheet features; closure rules are those of OPC and of the part types the library writes, checked by an independent reader that shares no code with it.")

prop(id="C05", title="Each object of a sheet leads to its own content, whatever else is present",
  statement="Following the package from a sheet (cell, anchor, relationship, part) leads for each image, chart, shape, button, note, table, link, conditional format, validation, sparkline, merged range, background or header image to exactly the content that was added there, for any number and mix of objects on any sheets, including the same image, name or link used repeatedly; nothing is swapped, lost or duplicated.",
  over=["inputs", "histories"], quant="all pairs of 52 feature kinds in every layout over two sheets, all triples of the linked kinds, repetitions up to three, and everything at once",
  why="An off-by-one in shared numbering shows only for certain mixes of object kinds and orders on several sheets; fixed test files have few objects each.",
  files=["src/worksheet.rs", "src/workbook.rs", "src/drawing.rs", "src/vml.rs", "src/comment.rs", "src/packager.rs", "src/table.rs"],
  mechanism=[("image, chart and shape preparation", "src/worksheet.rs prepare_worksheet_images, prepare_worksheet_shapes, prepare_worksheet_charts"), ("global numbering", "src/workbook.rs prepare_drawings, prepare_vml, prepare_tables, prepare_embedded_images"), ("relationship writers", "src/packager.rs write_*_rels_file")],
  state=[("facts of a sheet", "(anchor cell, kind, identity of the content reached)")], technique=MC, level="model_checking",
  note="The expected facts are computed by the model from the program alone and compared with the facts an independent reader finds by following relationships.")

prop(id="C09", title="The same program always writes the same bytes",
  statement="Two runs of the same program with the same creation time write byte for byte the same file, whatever the order in which the parallel worksheet writers run, whatever the hash seeds of the process, and also for workbook level features.",
  over=["interleavings", "inputs"], quant="all schedules of the parallel sheet writers at their start and lock operations up to the bound, all orders of three-entry hash maps (by enumerating hash keys), over single features and pairs of features",
  why="A test runs one schedule with one random hash seed; an iteration order dependency shows only in some runs.",
  files=["src/packager.rs", "src/worksheet.rs", "src/workbook.rs", "src/shared_strings_table.rs", "src/theme.rs"],
  mechanism=[("parallel assembly", "src/packager.rs assemble_file thread::scope"), ("maps that reach the output", "src/workbook.rs save_internal, src/worksheet.rs note_authors, src/table.rs")],
  state=[("schedule", "which tasks have run up to which operation")], technique="stateless exploration of the real code under a controlled scheduler and controlled hash keys", level="model_checking",
  note="Schedules are explored on the real code; the scheduler owns the lock and task operations behind cfg(rxw_mc), and getrandom is replaced so that the hash keys are enumerated, with a self test that the control works.", hook="scheduler at Mutex/RwLock and task start, cfg(rxw_mc)")

prop(id="C10", title="Formats and strings of concurrently built sheets keep their identity",
  statement="Worksheets created from one workbook (in constant memory and low memory mode with shared format and string tables) may be filled by several threads at the same time; in every interleaving each cell ends with its own text, value and format, each string and format appears once, and a saved workbook holds what a sequential program would have written.",
  over=["interleavings"], quant="all interleavings of two and three threads with up to three calls each at the granularity of lock operations, within a preemption bound",
  why="A race in the shared tables needs two threads between two particular lock operations; no test runs the threads at all.",
  files=["src/workbook.rs", "src/worksheet.rs", "src/shared_strings_table.rs"],
  mechanism=[("shared format table", "src/worksheet.rs format_xf_index; src/workbook.rs format_xf_index"), ("shared string table", "src/shared_strings_table.rs shared_string_index")],
  state=[("shared tables", "format to index, string to index")], technique="stateless exploration of the real code under a controlled scheduler with a preemption bound", level="model_checking",
  note="Real threads serialised at each lock operation; all schedules up to the bound for each scenario.", hook="scheduler at Mutex/RwLock operations, cfg(rxw_mc)")

prop(id="C11", title="Saving leaves the workbook as it was",
  statement="A save does not change what later saves write: after any sequence of additions, sheet operations and saves, the saved file is the same as that of a program which performed the same additions and operations without the earlier saves.",
  over=["histories"], quant="all pairs of feature kinds with a save between, triples with two saves, all sequences of three sheet and name operations with and without saves between, and workbook features saved twice",
  why="Tests save once, and a few save twice the same content; state left behind by a save needs a second save after further changes.",
  files=["src/workbook.rs", "src/worksheet.rs", "src/packager.rs", "src/drawing.rs", "src/chart.rs"],
  mechanism=[("reset between saves", "src/workbook.rs reset; src/worksheet.rs reset"), ("preparation at save", "src/workbook.rs save_internal")],
  state=[("workbook", "sheets, names, tab state and objects at each save")], technique=MC, level="model_checking",
  note="Compared are all parts; styles and strings are compared resolved, since their tables may keep entries of earlier saves.")

prop(id="C13", title="A fault while saving is reported and leaves the workbook usable",
  statement="When the writer given to save fails at any call (an error, a zero length write, an interrupt), save returns an error instead of panicking or reporting success for an incomplete file; a short write is completed; and after a failed save the same workbook can be saved again, giving the file of an undisturbed workbook.",
  over=["crash_points", "histories"], quant="every write, seek and flush call of the save of six workbooks, including constant memory sheets, macros and large file mode, times five kinds of fault",
  why="Tests write to a buffer or disk that does not fail; each of the hundreds of writer calls of one save is a different failure point.",
  files=["src/packager.rs", "src/workbook.rs", "src/worksheet.rs", "src/error.rs"],
  mechanism=[("writing of parts", "src/packager.rs assemble_file and write_*"), ("state set up for a save", "src/workbook.rs save_internal; src/worksheet.rs reset")],
  state=[("fault point", "(workbook, index of the writer call, fault)")], technique="exhaustive fault injection at every writer call of the real code", level="fault_enumeration",
  note="All calls of each save are failed in turn; every 8th failure (all in thorough) is followed by a second save compared with the undisturbed file.")

prop(id="C06", title="A format is written with exactly the properties that were set",
  statement="A format made by any chain of Format setters, in any order, is written for a cell and for a conditional format with exactly the font, fill, border, alignment, number format, protection, color, hyperlink, quote prefix and checkbox properties in force after the last call of each setter, and no others; cells with the same properties share a style and different properties never do.",
  over=["inputs", "histories"], quant="all sequences of setter calls up to the depth over every setter and value class, every color kind in every color property, every pattern, border line and number format index, each setter on top of full formats",
  why="Tests set one or two properties per format; the style tables share fonts, fills, borders and number formats between formats, so a mistake shows for particular combinations.",
  files=["src/format.rs", "src/styles.rs", "src/workbook.rs", "src/color.rs"],
  mechanism=[("setters", "src/format.rs Format::set_*, unset_*"), ("sharing of fonts, fills, borders and number formats", "src/workbook.rs prepare_fonts, prepare_fills, prepare_borders, prepare_num_formats"), ("style writers", "src/styles.rs write_*")],
  state=[("format record", "each property's last value")], technique=MC, level="model_checking",
  note="Every pair of about 150 setter calls (thorough: every triple), as cell style and as conditional format style, resolved through the style tables by an independent reader.")

prop(id="C07", title="Merging formats keeps the first and fills in from the second",
  statement="Format::merge gives a format with every property of the first that was set and, for properties not set in it, that of the second; merging is associative, never changes its operands, and merging with an empty format changes nothing. The same holds for an unformatted cell where a row format and a column format cross, for any number of such cells.",
  over=["inputs", "histories"], quant="all pairs and triples of single property formats and full formats, and all crossings of those as row and column formats",
  why="Merging has a branch for each property; tests merge a few formats.",
  files=["src/format.rs", "src/worksheet.rs"],
  mechanism=[("merge of each property group", "src/format.rs merge_with, merge_fill, merge_font, merge_border, merge_alignment"), ("row and column formats", "src/worksheet.rs row_col_format, get_cell_xf_index")],
  state=[("format record", "each property's value or unset")], technique=MC, level="model_checking",
  note="Each merge result is written and resolved through the style tables, compared with the merge of the two records.")

prop(id="C27", title="View, page and print settings are written as last set",
  statement="The view settings (zoom, view mode, panes, selection, gridlines, direction, top left cell), sheet properties (tab color, outline symbols, fit to page), page setup (paper, orientation, margins, scale, fit, order, first page, page breaks), print options, print area, repeated rows and columns, and headers and footers of a sheet are in the file exactly as last set, whichever calls came in between; a rejected call changes nothing.",
  over=["histories", "inputs"], quant="all sequences of calls up to the depth over every setter and value class, every call after all the others, and all groups but one",
  why="A setter that resets or depends on another's field shows only for that pair of calls in that order.",
  files=["src/worksheet.rs", "src/workbook.rs"],
  mechanism=[("setters", "src/worksheet.rs set_zoom, set_freeze_panes, set_print_*, set_page_*, set_margins, set_header, set_footer"), ("writers", "src/worksheet.rs write_sheet_views, write_sheet_pr, write_page_setup, write_header_footer, write_row_breaks"), ("print names", "src/worksheet.rs set_print_area, set_repeat_rows, set_repeat_columns; src/workbook.rs set_package_options")],
  state=[("settings", "last call of each group of settings")], technique=MC, level="model_checking",
  note="Every pair of about 130 calls (thorough: triples); the whole sheet part and defined names are compared with the model, so nothing extra is accepted.")

prop(id="C29", title="Protection settings say exactly what was allowed",
  statement="For any history of protect, protect_with_password, protect_with_options, unprotect_range calls on a worksheet or chartsheet, the file has protection exactly if a protect call was made, with the password hash of the last password and exactly the allowed actions of the last options, and lists exactly the unprotected ranges with their names and passwords.",
  over=["inputs", "histories"], quant="all sets of protection options, all call sequences up to the depth, and all passwords up to a length over an alphabet",
  why="There are 2^16 option sets and the attribute logic is inverted for some; tests use three.",
  files=["src/worksheet.rs", "src/protection.rs", "src/utility.rs", "src/chartsheet.rs"],
  mechanism=[("options to attributes", "src/worksheet.rs write_sheet_protection, write_protected_ranges"), ("password hash", "src/utility.rs hash_password")],
  state=[("protection", "last options, last password, ranges")], technique=MC, level="model_checking",
  note="The password hash oracle is an independent implementation of the published legacy hash.")

prop(id="C36", title="Sheets keep their order, names, visibility and selection",
  statement="After any sequence of adding, pushing, inserting, removing, swapping and renaming sheets and of setting them active, selected, hidden, very hidden or first tab, the saved workbook lists exactly the sheets present in their order with their names and kinds, default names never collide, exactly the active sheet is shown active and it is visible and selected, hidden states are those last in force, lookups by name and position give the right sheet, and a save with a reused name is refused.",
  over=["histories", "inputs"], quant="all sequences of sheet operations up to the depth from four starting workbooks, all sequences of tab state calls to a greater depth, and all sheet names up to a length over the special characters",
  why="The flags of a sheet depend on each other and on the other sheets; tests make two or three calls in one order.",
  files=["src/workbook.rs", "src/worksheet.rs", "src/utility.rs", "src/app.rs"],
  mechanism=[("tab state", "src/worksheet.rs set_active, set_selected, set_hidden, set_very_hidden, set_first_tab"), ("active sheet", "src/workbook.rs active_worksheet_index, save_internal"), ("names", "src/workbook.rs add_worksheet, push_worksheet; src/utility.rs validate_sheetname")],
  state=[("sheet list", "name, kind, visibility, active, selected, first")], technique=MC, level="model_checking",
  note="Each sheet carries an identity (its zoom) so that a sheet under another's name or place is seen.")

prop(id="C39", title="Notes and buttons are written as they were configured",
  statement="For any sequence of settings each note and button of the file has exactly the text (with its author prefix unless switched off, and the default author of its worksheet at the time of saving), author, visibility, size, colours, font, movement, macro, caption and alternative text last set for it, the others keep their defaults, the settings of one object never show in another, the comments and their shapes agree cell by cell, and no two objects of a workbook share a shape id. After any history of inserting, replacing, default authors and saves, the file has one object per cell in the order of the cells.",
  over=["inputs", "histories"], quant="all sequences of settings of two notes and two buttons up to the depth, all settings at once and all but one, counts of notes and buttons around the size of a block of shape ids on two worksheets, all histories up to the depth of inserting, replacing, default authors, visibility and saves",
  why="A note lives in three places (comments, shapes, authors) written by different code; tests set an option or two on one note.",
  files=["src/note.rs", "src/button.rs", "src/comment.rs", "src/vml.rs", "src/worksheet.rs", "src/workbook.rs"],
  mechanism=[("comments", "src/comment.rs"), ("shapes", "src/vml.rs"), ("collection", "src/worksheet.rs prepare_vml_objects, insert_note, insert_button; src/workbook.rs prepare_vml")],
  state=[("notes", "author, text, prefix, visibility, size, font, fill, movement"), ("shape ids", "blocks of 1024 of each worksheet")], technique=MC, level="model_checking",
  note="Positions are those of C19.")

prop(id="C40", title="Text boxes are written as they were configured",
  statement="For any sequence of settings the shape of a text box in the drawing has exactly the text (split into its paragraphs), text link, alternative text, hyperlink, font, text options, fill (none, solid, gradient or pattern), line and transparency last set for it; every other setting keeps its default, whichever of the accepted forms gave the value; settings of one text box never show in another; a value the documentation rules out leaves the earlier one in force.",
  over=["inputs", "histories"], quant="all sequences of some 85 settings up to the depth, each setting before and after all the others, all ordered pairs of text boxes on one and two worksheets, all values of the enumerations and colours, all texts up to a length over an alphabet of the characters that matter with and without a link",
  why="The settings are nested (font, text, fill, line, gradient) and written by conditional code whose cases meet; tests set one or two options per file.",
  files=["src/shape.rs", "src/drawing.rs", "src/worksheet.rs"],
  mechanism=[("settings", "src/shape.rs"), ("drawing", "src/drawing.rs write_sp, write_paragraph, write_font_elements")],
  state=[("shape", "text, link, font, alignment, fill, line, url, alternative text")], technique=MC, level="model_checking",
  note="Positions and sizes are those of C19, the relationships those of C03.")

prop(id="C31", title="Hyperlinks lead to the target they were given",
  statement="For every url of the documented kinds (web, mail, internal, file) in a cell or on an image or text box, the file holds a link of that cell or object whose target and location are the ones given: special characters are escaped once, a url that already holds %xx escapes is passed on unchanged, a place after # is kept, internal links name the same place in the workbook, and tip and shown text are those given or the documented default. After any history of writing links and other values, links of a worksheet are exactly those last written per cell; a refused url (unknown kind, too long) leaves no trace.",
  over=["inputs", "histories"], quant="all urls of 12 openings with all tails up to a length over an alphabet of 23 characters, in cells and on objects, all histories up to the depth on three cells of two worksheets, the limits of each part, all pairs of objects with links on one and two worksheets",
  why="The target depends on the interplay of kind, escapes, anchors and path forms, and is split between the worksheet and its relationships; tests hold some thirty urls.",
  files=["src/url.rs", "src/worksheet.rs", "src/xmlwriter.rs", "src/image.rs", "src/shape.rs", "src/drawing.rs"],
  mechanism=[("parsing", "src/url.rs parse_url, escape_strings, is_escaped"), ("writing", "src/worksheet.rs store_url, write_hyperlinks, write_hyperlink, prepare_worksheet_images")],
  state=[("links", "map of cell to link, relationships of worksheets and drawings")], technique=MC, level="model_checking",
  note="A file link of an object with a place after # is left out: what Excel expects there is not documented. So are file links without a file name, and links of embedded images.")

prop(id="C14", title="Refused calls are refused alike and leave nothing behind",
  statement="Every worksheet call that takes cells, rows, columns or ranges returns the limit error for any coordinate outside the 1,048,576 x 16,384 grid and the order error for a reversed range, accepts everything inside (and then gives a valid file), and never panics. A call that returns an error, for its coordinates or for what it holds (too long strings, overlapping tables, merges or filters, levels beyond 7, invalid names, empty sparklines and charts, ...), changes nothing: calls after it give the same results, and the saved file is the same, byte for byte, as if it had not been made.",
  over=["inputs", "histories"], quant="some 95 calls with all combinations of six rows and six columns around the limits as first and last, on empty and filled worksheets in the three modes; some 62 refused calls between all pairs of 18 accepted calls on two workbooks, and all ordered pairs of refused calls",
  why="Each of the calls checks its arguments by itself, in its own order, between changes of state; tests try one bad value for some of the calls and look at the error only.",
  files=["src/worksheet.rs", "src/workbook.rs"],
  mechanism=[("limits", "src/worksheet.rs check_dimensions, check_dimensions_only and every public function that takes cells"), ("content", "src/worksheet.rs, src/workbook.rs define_name, worksheet_from_name")],
  state=[("worksheet", "dimensions, tables, merges, filters, formats, groups, objects before and after the refused call")], technique=MC, level="model_checking",
  note="Calls that write several cells one by one (write_row, serialize, ...) are checked with one cell. Ranges far larger than some cells are not given to calls that fill them.")

prop(id="C34", title="Images are read as their files state and bad files are refused",
  statement="For every PNG, JPEG, GIF and BMP file the kind, width, height and resolution the library takes are those the file states, wherever in its chunks or segments they stand and whatever surrounds them; a file without a size, of an unknown kind, cut at any byte or altered is either refused with an error or read with a positive size, never a panic; an accepted image is stored unchanged with the extension of its kind.",
  over=["inputs"], quant="all sequences of PNG chunks and of JPEG segments up to the depth with and without an end, all pairs of boundary sizes in five formats, all prefixes, all changes of one byte and of two bytes (near each other in the quick check) of a file of each kind, all short files over the bytes that start an image",
  why="The parsers walk offsets taken from the file; tests read some forty well-formed images.",
  files=["src/image.rs"],
  mechanism=[("parsers", "src/image.rs process_image, process_png, process_jpg, process_bmp, process_gif"), ("storing", "src/packager.rs write_image_files")],
  observe=["size, resolution, errors and panics of Image::new_from_buffer", "media part of the saved file"], technique="exhaustive enumeration of file structures against an independent model, on the real code", level="model_checking",
  note="Images beyond 100000 pixels are read but not placed on a worksheet.")

prop(id="C28", title="Names and references always lead to their sheet",
  statement="For every valid sheet name, each reference the library writes (print areas, titles, filters, user names, chart and sparkline ranges, cached chart values) is quoted so that it parses back to exactly that sheet and range; for any sequence of naming calls, renames and reorderings, the workbook lists exactly the names in force, in order, each with the index of its sheet; an invalid name or one of an unknown sheet is refused without a panic.",
  over=["inputs", "histories"], quant="all sheet names up to a length over an alphabet of the characters that matter, all sequences of naming operations up to the depth, all name strings up to a length",
  why="Whether a name needs quotes depends on fine rules (R1C1, column limits, digits); tests try some forty names and one order of calls.",
  files=["src/utility.rs", "src/workbook.rs", "src/worksheet.rs", "src/chart.rs", "src/sparkline.rs"],
  mechanism=[("quoting", "src/utility.rs quote_sheet_name, unquote_sheetname"), ("defined names", "src/workbook.rs define_name, set_package_options; src/worksheet.rs DefinedName"), ("ranges", "src/chart.rs ChartRange")],
  state=[("names", "user names, areas, titles and filters of each sheet")], technique=MC, level="model_checking",
  note="References are parsed by an independent reader which refuses an unquoted name that Excel would read as something else.")

prop(id="C16", title="Cell reference helpers agree with Excel's numbering",
  statement="The public helpers that turn numbers into column names, cells, ranges and sheet ranges and back are exact inverses for every column and row of a sheet, relative and absolute, and no column name beyond the sheet is taken for a column inside it.",
  over=["inputs"], quant="all 65535 column numbers, all letter strings up to the length, all pairs of boundary cells",
  why="Off-by-one errors sit at the carries of the 26 letter system; tests check a few values.",
  files=["src/utility.rs"], mechanism=[("conversion", "src/utility.rs column_number_to_name, column_name_to_number, row_col_to_cell, cell_range, worksheet_range")],
  observe=["return values of the public functions"], technique="exhaustive enumeration of inputs against an independent model, on the real code", level="model_checking",
  note="Complete for columns; rows at all powers of ten and of two boundaries.")

prop(id="C18", title="Formulas and their results are stored as Excel needs them",
  statement="Any valid formula is stored, wherever it is given (cells, array and dynamic formulas, table columns and totals, data validations, conditional formats), with exactly its text but for the leading equal sign or array braces: the functions which need a prefix and no other names get it, nothing in a string, quoted sheet name, table reference or user defined name changes, formulas that have prefixes are copied, references to the row of a table are expanded in table columns. A cell is dynamic exactly if a dynamic function is called or asked for. Every result, default or set later, is stored as the number, boolean, error or text that it is.",
  over=["inputs"], quant="all strings, quoted names and table references with contents of up to 3 (thorough: 5) of 13 tokens in six contexts, all sequences of up to 3 (4) of 24 pieces, all 161 documented functions in 25 contexts, all places, all result texts of up to 3 (4) of 26 tokens",
  why="Formulas are free text that is scanned without a full parser; an error needs a name or a quote in a place nobody thought of.",
  files=["src/formula.rs", "src/worksheet.rs", "src/table.rs", "src/conditional_format.rs", "src/data_validation.rs"],
  mechanism=[("scanner", "src/formula.rs escape_formula, copy_escaped_formula, escape_table_functions, new"), ("cells", "src/worksheet.rs store_formula, store_array_formula, write_formula_cell, write_array_formula_cell")],
  observe=["the text, kind and result of the formulas in the saved parts"], technique="exhaustive enumeration of inputs against an independent model, on the real code", level="model_checking",
  note="The expected text is composed with the formula, piece by piece, so no second scanner is needed. Function names in capitals, as documented.")

prop(id="C19", title="Drawings, notes and buttons lie where they were put, in the right size",
  statement="The anchor written for an image, chart, shape, button or note is the cell and rest that hold its top left corner, as given by the cell it was inserted at and its offset, and those that hold its bottom right corner, as given by its size in pixels, with the sizes of columns and rows at the time of saving: cells hidden by the user or by a filter have no size unless the object moves and sizes with cells after, heights and widths set later count, and a second save uses the new ones. The absolute positions and sizes agree with the anchor, the movement is written as set, images have their pixel size scaled by their resolution and all scalings, and notes lie beside their cell, also in the last rows and columns.",
  over=["inputs", "histories"], quant="all assignments of five kinds of size to 3 (thorough: 4) columns and rows with all positions, 5 offsets, 4 sizes and 4 movements for all five kinds of object, all pixel widths and heights, 2880 scalings of images, 81 cells of notes at the limits, all histories of up to four (five) of 12 changes and saves after inserting",
  why="Anchors accumulate over columns and rows in two unit systems; an error only shows with a certain combination of hidden or resized cells and offsets.",
  files=["src/worksheet.rs", "src/drawing.rs", "src/vml.rs", "src/image.rs", "src/note.rs", "src/button.rs", "src/chart.rs", "src/shape.rs"],
  mechanism=[("places", "src/worksheet.rs position_object_pixels, position_object_emus, column_pixel_width, row_pixel_height"), ("writers", "src/drawing.rs write_two_cell_anchor; src/vml.rs write_anchor"), ("scaling", "src/image.rs set_scale_to_size, DrawingObject for Image")],
  state=[("worksheet", "pixel sizes and hidden flags of columns and rows, default height, filter; place and size of the object")], technique=MC, level="model_checking",
  note="Objects that reach beyond the last column or row and rows hidden by hide_unused_rows are left out.")
prop(id="C20", title="Rows and columns have the size, format and visibility last set",
  statement="After any sequence of calls that set row heights, column widths (in characters or pixels, single or ranges, automatic), row and column formats, visibility, the default row height and the hiding of unused rows, every row and column of the saved sheet has the size, style and visibility of the last call for it, rows without a height have the default height, automatic widths never narrow a width set by the user, equal neighbouring columns are joined without gaps or overlaps, and a call beyond the limits is refused and changes nothing.",
  over=["histories", "inputs"], quant="all sequences of calls up to the depth over rows and columns that meet, all pixel sizes up to 2048, boundary sizes, and calls at and beyond the limits",
  why="Options of one row or column are kept in one record that every call updates or creates; tests make few calls per row, in one order.",
  files=["src/worksheet.rs"],
  mechanism=[("row options", "src/worksheet.rs set_row_height, set_row_format, set_row_hidden, write_table_row"), ("column options", "src/worksheet.rs store_column_width, set_column_format, write_cols, write_col_element"), ("defaults", "src/worksheet.rs set_default_row_height, hide_unused_rows, write_sheet_format_pr")],
  state=[("row and column records", "size, format, visibility, level of each")], technique=MC, level="model_checking",
  note="Every pair (thorough: triple) of 58 calls, depth 4 (5) over ten calls of one row and of neighbouring columns.")

prop(id="C33", title="Outline groups give each row and column its level",
  statement="After any sequence of grouping calls over nested, overlapping or crossing ranges, mixed with other row and column calls, every row and column has as outline level the number of groups around it, is hidden if one of them is collapsed (until shown again), the line after a collapsed group carries the collapse mark, the sheet announces the highest level, the symbol positions are those set, and a group beyond seven levels or beyond the sheet or in reverse order is refused and changes nothing.",
  over=["histories", "inputs"], quant="all sequences of grouping calls up to the depth over overlapping row and column ranges, all nestings up to nine groups, and calls at and beyond the limits",
  why="Levels add up over calls; tests have four fixed layouts.",
  files=["src/worksheet.rs"],
  mechanism=[("grouping", "src/worksheet.rs set_grouped_rows, set_grouped_row, set_collapsed_row and the same for columns"), ("header", "src/worksheet.rs write_sheet_format_pr, write_outline_pr")],
  state=[("row and column records", "level, hidden, collapsed")], technique=MC, level="model_checking",
  note="Every pair (thorough: triple) of 38 calls, depth 4 (5) over eight calls for rows and for columns.")

prop(id="C21", title="Autofilters hide exactly the rows that Excel hides",
  statement="The autofilter of a worksheet is written with its range and, per column, exactly the list of values and blanks or the one or two criteria of the last filter set for that column, joined by and unless an or was asked for. On saving, exactly the rows of the range below its first row are hidden whose cell in some filtered column doesn't match, by Excel's rules: texts compare without case and outer blanks, a value that reads as a number matches numbers, blank cells match blanks and negated criteria, numbers only match criteria on numbers and negated ones on texts. A new range drops the filters; filters without a range, outside of it or without a value are refused; rows hidden or sized by the user stay so, data written between saves is filtered anew, and automatic hiding can be turned off.",
  over=["inputs", "histories"], quant="all sequences of up to two of 71 builder calls and of up to four (thorough: five) of ten on 22 kinds of cells, all pairs of 71 filters on two columns, all histories of up to four (five) of 14 operations (ranges, filters, cell writes, row settings, saves) with and without automatic hiding",
  why="Rows are hidden at save time by reimplementing Excel's matching; a file that disagrees with its own filter shows wrong data silently.",
  files=["src/worksheet.rs", "src/filter.rs"],
  mechanism=[("matching", "src/worksheet.rs hide_autofilter_rows, row_matches_list_filter, row_matches_custom_filter"), ("builder", "src/filter.rs FilterCondition, FilterData"), ("writer", "src/worksheet.rs write_auto_filter")],
  state=[("autofilter", "range, filter per column, cells, rows hidden by the user")], technique=MC, level="model_checking",
  note="Wildcards in values are not modelled; ranges that overlap tables are decided by C15, the defined name by C28.")
prop(id="C22", title="Data validations say exactly what was set",
  statement="A data validation built by any sequence of its setters is written with exactly the rule (type, operator, one or two values), input and error texts, style and switches in force after the last call of each, for exactly its range or ranges; of several validations added to one range the last counts and others are kept; texts and lists up to the documented limits in characters are accepted and longer ones, reversed ranges and ranges beyond the sheet are refused.",
  over=["inputs", "histories"], quant="all pairs of 120 setter calls (thorough: triples), all text lengths up to 300, all sequences of three additions to nine ranges",
  why="Defaults are written inverted and depend on the rule kind; tests show fixed combinations in one order.",
  files=["src/data_validation.rs", "src/worksheet.rs"],
  mechanism=[("rules and texts", "src/data_validation.rs DataValidation::allow_*, set_*"), ("writer", "src/worksheet.rs add_data_validation, write_data_validation")],
  state=[("validation", "last rule, texts and switches; range to validation")], technique=MC, level="model_checking",
  note="The whole element is compared with the model's, so anything extra is seen too.")

prop(id="C23", title="Conditional formats say exactly what was set",
  statement="A conditional format of any of the thirteen kinds, built by any sequence of its setters, is written for exactly its range or ranges as the rule, values, texts, colors, icons, format and stop switch in force after the last call of each; rules which need it have exactly one extension joined by a unique id; quotes and non Latin characters in texts are handled; several rules of a range keep their order with unique priorities; rules without content, with ranks beyond the limits or for impossible ranges are refused and leave nothing behind.",
  over=["inputs", "histories"], quant="for each kind all setter sequences up to the depth (2 to 4, thorough 3 to 5) over all rule kinds and value types, and all sequences of three (four) additions of five rule kinds to five ranges",
  why="Rules are written in two places which must agree; defaults are implied by absence; tests show fixed combinations in one order.",
  files=["src/conditional_format.rs", "src/worksheet.rs"],
  mechanism=[("rule writers", "src/conditional_format.rs rule, x14_rule of each kind"), ("placement and priorities", "src/worksheet.rs add_conditional_format, write_conditional_formats, write_conditional_formattings")],
  state=[("conditional format", "last setting of each group; range to rules")], technique=MC, level="model_checking",
  note="Data bar colors are compared by their effective meaning (same as positive or explicit).")

prop(id="C02", title="Every text reaches the file unchanged, in well-formed XML",
  statement="Any text given to the library as cell string, rich string, formula result, link, note, sheet or range name, document property, header, table header, validation, filter or conditional format text, chart, shape, image or button text, font name or number format is found unchanged by a reader of the saved file, with XML special characters, control characters, non-characters, white space at the ends, line breaks and sequences that look like escapes or tags; or it is refused with an error. Every part of the file is well-formed XML.",
  over=["inputs"], quant="85 sinks of text, each with all sequences of up to two (thorough: three for cells, notes and results) of 35 characters and sequences that need care, and every character around the boundaries of XML 1.0 in 18 sinks",
  why="Escaping is done in a dozen places with different functions; tests use a few harmless texts per sink.",
  files=["src/xmlwriter.rs", "src/worksheet.rs", "src/shared_strings.rs", "src/comment.rs", "src/drawing.rs", "src/chart.rs", "src/vml.rs", "src/core.rs", "src/app.rs", "src/custom.rs"],
  mechanism=[("escaping", "src/xmlwriter.rs escape_attributes, escape_xml_data, escape_xml_escapes, match_xml_char"), ("string items", "src/xmlwriter.rs xml_si_element, xml_rich_si_element, write_inline_string_cell")],
  state=[("text sink", "text held")], technique="exhaustive enumeration of texts over an alphabet against an identity model, on the real code", level="model_checking",
  note="Cells, notes and results must decode exactly; drawings and attributes may hold control characters escaped or as they are where XML allows.")

prop(id="C24", title="Charts are written as configured",
  statement="A chart built by any sequence of the documented setters is written to its chart part with exactly the settings in force after the last call of each: lines, fills, gradients, patterns, fonts, formats, markers, data labels and custom labels, trendlines, error bars, layouts, data tables, titles, legends, axes, series and whole-chart options of every chart type; nothing which wasn't set appears, values out of range leave the earlier setting, and settings the chart type cannot have are not written. Elements are in the order the file format requires. Ranges mean the same in every form (tuple, string, ChartRange) for any sheet name; series caches hold the cells of the range at the right positions. With series on two axes and combined charts every series is written once, in order, with unique indices, and every group refers to existing axes that cross each other. Reversed ranges of values or categories are refused. Saving again gives the same chart.",
  over=["inputs", "histories"], quant="for about 80 kinds of chart object all setter sequences up to the depth (2 to 3, thorough 2 to 5) over all options, all options at once and all groups but one; 23 chart types x 9 combinations x all secondary masks of up to two (four) series; 11 places x 8 forms x 80 ranges; all contents of four (six) cells of ten kinds",
  why="The chart writer has some 10000 lines of implied defaults which depend on chart type and on other settings; tests compare single hand-made charts.",
  files=["src/chart.rs", "src/workbook.rs", "src/worksheet.rs"],
  mechanism=[("chart writer", "src/chart.rs assemble_xml_file and the write functions"), ("setters", "src/chart.rs Chart, ChartSeries, ChartAxis, ChartTitle, ChartLegend, ChartFormat, ChartFont, ChartDataLabel, ChartTrendline, ChartErrorBars"), ("caches", "src/workbook.rs update_chart_range_cache; src/worksheet.rs get_cache_data")],
  state=[("chart", "last setting of each group of settings; list of series with their axis")], technique=MC, level="model_checking",
  note="The effects of each single option are a reviewed table (mc/src/props/c24.txt), read by hand against the documentation and ECMA-376; how options combine is decided by the model.")

prop(id="C17", title="Dates and times become the right serial numbers everywhere",
  statement="Every date from 1899-12-31 to 9999-12-31, every time of day and every duration in hours, given by parts, as a text in a documented form, as a Unix timestamp, as a serial number or as a chrono value, becomes the serial number Excel has for it (with its 1900-02-29), the same one wherever it is written: in cells, row and column writes, validations, conditional formats, filters and properties. Impossible dates, times and texts are refused.",
  over=["inputs"], quant="every day of the range and every impossible year, month and day around it, every second of a day, hours to the limit, every day as timestamp and chrono value; representative moments in every representation times every place which takes one",
  why="Leap years, carries and roundings depend on the value; tests sample dates at even intervals and only some representations.",
  files=["src/datetime.rs", "src/worksheet.rs", "src/properties.rs", "src/filter.rs", "src/data_validation.rs", "src/conditional_format.rs"],
  mechanism=[("conversion", "src/datetime.rs ExcelDateTime::from_ymd, and_hms, parse_from_str, from_timestamp, to_excel"), ("chrono", "src/datetime.rs chrono_*_to_excel"), ("places", "IntoExcelData, IntoExcelDateTime, IntoDataValidationValue, IntoConditionalFormatValue, IntoFilterData")],
  observe=["return values of the public functions", "numbers in the saved file"], technique="exhaustive enumeration of inputs against a counting calendar, on the real code", level="model_checking",
  note="The calendar counts days one by one and shares nothing with the code.")

prop(id="C26", title="Document properties are those last set",
  statement="After any sequence of property settings the saved core, application and custom property parts hold exactly the last value set for each property, texts unchanged, custom properties in order of addition with unique ids from 2, their types and values, and the creation time given (or a valid one); of several sets of properties given to a workbook the last counts; parts that aren't needed aren't there.",
  over=["histories", "inputs"], quant="all sequences of property settings up to the depth (quick 3, thorough 4) over all properties and all kinds of custom values, in one or two sets",
  why="Presence of elements and parts depends on combinations; tests have a handful.",
  files=["src/properties.rs", "src/core.rs", "src/app.rs", "src/custom.rs", "src/workbook.rs"],
  mechanism=[("setters", "src/properties.rs DocProperties"), ("writers", "src/core.rs, src/app.rs, src/custom.rs"), ("history", "src/workbook.rs set_properties")],
  state=[("properties", "last value of each; list of custom properties")], technique=MC, level="model_checking",
  note="Titles of sheets and named ranges in app.xml are decided by C03.")

prop(id="C12", title="Constant and low memory worksheets hold the same as standard ones",
  statement="After any sequence of calls in row order, with or without saves in between, a constant memory or low memory worksheet holds the same cells, values, formats, row settings, merged ranges, tables, array formulas, embedded images and other settings as a standard worksheet after the same calls, whether the worksheets are alone or together in a workbook, in any order, written in turns, created by the workbook or added to it. Writes and formats of cells in rows already passed have no effect on the file.",
  over=["histories", "inputs"], quant="all pairs (thorough: triples) of 92 calls over four rows that meet, all sequences of up to four (five) of 15 calls, in three arrangements; all pairs with a save at any point, and sequences of three (four); all pairs of boundary positions",
  why="Rows are flushed while writing: what is lost, kept back or written ahead depends on the order of calls; tests repeat standard programs with data in plain order.",
  files=["src/worksheet.rs", "src/workbook.rs", "src/packager.rs"],
  mechanism=[("flushing", "src/worksheet.rs insert_cell, flush_to_row, flush_last_row, flush_data_row, write_constant_table_row"), ("write ahead", "src/worksheet.rs set_writing_ahead, merge_range, store_array_formula, add_table"), ("assembly", "src/packager.rs write_worksheet_file")],
  state=[("worksheet", "row in progress, rows written ahead")], technique=MC, level="model_checking",
  note="The standard worksheet is the reference model; its own content is decided by C01, C20, C33.")

prop(id="C15", title="Merges, tables and filters never overlap; refused calls leave nothing behind",
  statement="After any sequence of calls that merge cells, add tables with or without header, filter and total row, and set or replace the worksheet's filter, merged ranges are disjoint, tables are disjoint, no cell has the drop-downs of two filters, every call which would break this (or is reversed, too small or beyond the sheet) is refused with the documented error and changes nothing, every other call is accepted, and the saved file holds exactly the accepted ranges, the last filter with its defined name, and the cells they write.",
  over=["histories", "inputs"], quant="all pairs of seven kinds of call over all 36 ranges of a 3x3 grid, all triples over a 2x2 (thorough: 3x2) grid, thorough: all quadruples of small ranges, and pairs at the limits of the sheet",
  why="The checks work cell by cell on three maps which refused or replaced calls must not leave changed; tests have a refused call at the end only.",
  files=["src/worksheet.rs", "src/table.rs"],
  mechanism=[("overlap checks", "src/worksheet.rs merge_range, add_table, autofilter"), ("writers", "src/worksheet.rs write_merge_cells, write_auto_filter; src/table.rs")],
  state=[("ranges", "merged ranges, tables, filter, cells")], technique=MC, level="model_checking",
  note="Merged ranges over tables are accepted by the library and not judged.")

prop(id="C32", title="Sparklines are written as configured",
  statement="A sparkline built by any sequence of its setters is written to its worksheet with exactly the settings in force: type, points shown, seven colours, axis, limits, weight, empty cells, hidden data, direction and dates; a colour of a point also shows that point, a custom limit and a group limit replace each other, and a style sets all seven colours as Excel defines them. A group of sparklines gives each cell of its row or column one row of the data range in order, or one column if so ordered; cells and data that don't fit each other, lie outside the worksheet or aren't one- or two-dimensional as required are refused and leave no trace. All sparklines of a worksheet are written once, also next to conditional formats that share the extension list and after a second save.",
  over=["inputs", "histories"], quant="all sequences of up to two (thorough: three) of 65 settings, all options at once, all 36 styles with one colour before or after, all groups of up to 4x4 (5x5) cells over data up to 4x4 (5x5) in both orders, all pairs of cell and data corners at the limits of a worksheet, all histories of up to three (four) sparklines, groups, data bars, refused calls and saves on two worksheets",
  why="Setters override each other and groups split ranges by shape and order; tests show single configurations that fit.",
  files=["src/sparkline.rs", "src/worksheet.rs", "src/chart.rs"],
  mechanism=[("settings", "src/sparkline.rs Sparkline setters, set_style"), ("groups", "src/sparkline.rs add_group_range, src/chart.rs ChartRange::increment"), ("writer", "src/worksheet.rs add_sparkline, add_sparkline_group, write_sparkline_group")],
  state=[("sparkline", "last setting of each option, colours in force, limits; list of groups")], technique=MC, level="model_checking",
  note="Colours of the styles are compared with the table of Excel; ranges are parsed back cell by cell.")
prop(id="C35", title="Tables are written as configured",
  statement="A table built by any sequence of its setters and those of its columns is written with exactly the settings in force: range, header, total and filter rows, banding, style, name, and per column header, total function or label, formula and format; the cells of the worksheet get exactly the headers, totals, formulas and formats of the table and no others change. Headers not given are the texts of the cells or Column1, Column2 and so on; repeated headers, tables without data rows and names used twice in a workbook are refused; tables have unique ids and names in the order of worksheets, linked to the right parts, also after a second save.",
  over=["inputs", "histories"], quant="all sequences of up to three of 56 settings (thorough: four of those of rows and one column), all options at once, all sizes up to 5x4 with too few or many columns, all pairs of header contents, all styles, all histories of up to three (five) named and unnamed tables on two worksheets with a second save",
  why="A table is written in two places which must agree, with many implied defaults; tests have fixed layouts.",
  files=["src/table.rs", "src/worksheet.rs", "src/workbook.rs", "src/formula.rs"],
  mechanism=[("cells and columns", "src/worksheet.rs add_table, default_table_headers, prepare_worksheet_tables"), ("writer", "src/table.rs Table, TableColumn"), ("names", "src/workbook.rs prepare_tables")],
  state=[("table", "last setting of each option of table and columns; list of tables")], technique=MC, level="model_checking",
  note="Texts in tables are decided by C02, overlaps by C15.")

prop(id="C25", title="Serialized structs fill exactly the cells under their headers",
  statement="For any sequence of setting headers for structs (from a value, a type, options or the XlsxSerialize trait; with fields renamed, reordered, skipped or formatted, with headers hidden, as a table) and of serializing values (alone, in lists, tuples and options, of types with and without headers), each field of the n-th value of a struct is in the n-th row under the last headers set for that struct, in the column of the field, with the value write() would give it and the format of the field; fields which are skipped or unknown and structs without headers write nothing; header cells, column widths and column formats are those asked for; the dimensions reported for a struct and a field cover exactly this area, and so does its table, if it has one, however often and whenever the file is saved; headers which do not fit on the sheet are refused without writing any.",
  over=["inputs", "histories"], quant="all sequences of 18 header and data calls up to the depth, longer sequences of 8 of them, all kinds of field values over empty and full cells, all placements around the edges of the sheet, all saves in between",
  why="The writer keeps state from call to call (current struct, next row, pending table), keyed by name and kept in hash maps; what a call writes depends on all calls before; tests have single files with one layout each.",
  files=["src/serializer.rs", "src/worksheet.rs", "rust_xlsxwriter_derive/src/lib.rs"],
  mechanism=[("headers", "src/worksheet.rs store_custom_serialization_headers"), ("values", "src/serializer.rs impl Serializer for &mut Worksheet"), ("tables", "src/serializer.rs get_tables, src/worksheet.rs store_serialized_tables")],
  state=[("serializer", "place and next row of each struct, fields with column and formats, pending tables"), ("cells", "values and formats")], technique=MC, level="model_checking",
  note="Structs within structs and maps are documented as unsupported and not explored. Known finding: a table is fixed at the first save, rows serialized afterwards are not in it.")

prop(id="C37", title="Autofit makes each column as wide as its widest cell needs",
  statement="Fitting the columns gives each column the largest width that any of its cells needs at that time, in pixels of the default font: the sum of the widths of the characters of the longest line of a text (rich text, link text, the result of a formula), of the digits of a number, of TRUE and FALSE, or of a default date, plus the padding, plus the drop-down arrow where the cell heads a filter or a table with a filter, up to the limit of Excel or the given maximum; blank cells need nothing. A width set by the user is only ever increased by it, a width set afterwards replaces it, other columns are left alone, and the columns are marked as fitted. cell_autofit_width() agrees with this.",
  over=["inputs", "histories"], quant="all sequences of 28 writes of all kinds of content, overwrites, filters, tables, explicit widths, fits and maximums up to the depth, all texts up to a length over characters of each width, all characters of Latin, lengths around the limit, 400 numbers",
  why="The width of a column hangs on all its cells, on filters and tables and on what was set before; tests fit one fixed set of strings.",
  files=["src/worksheet.rs", "src/utility.rs"],
  mechanism=[("autofit", "src/worksheet.rs autofit_worksheet, store_column_width"), ("text width", "src/utility.rs pixel_width")],
  state=[("columns", "width and whether it was fitted"), ("cells", "content and filter headers")], technique=MC, level="model_checking",
  note="The widths of the characters are a table of the metrics of Calibri 11 in the check. Constant memory mode, where only the current row is fitted, is not explored.")
